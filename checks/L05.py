from vlib.libcheck import libmain


def main(chk):
    libmain(chk, ["convert"], 900, 4000)
