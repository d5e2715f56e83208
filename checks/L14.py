from vlib.libcheck import libmain


def main(chk):
    libmain(chk, ["clusters"], 1500, 5000)
