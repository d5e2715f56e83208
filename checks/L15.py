from vlib.libcheck import libmain


def main(chk):
    libmain(chk, ["models"], 600, 5000)
