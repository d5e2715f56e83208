from vlib.libcheck import libmain


def main(chk):
    libmain(chk, ["stats"], 640, 3000)
