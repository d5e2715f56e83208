from vlib.libcheck import libmain


def main(chk):
    libmain(chk, ["strings"], 4000, 6000)
