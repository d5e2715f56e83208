from vlib.libcheck import libmain


def main(chk):
    libmain(chk, ["arrays"], 120, 1200)
