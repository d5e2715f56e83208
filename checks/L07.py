from vlib.libcheck import libmain


def main(chk):
    libmain(chk, ["maps"], 160, 1200)
