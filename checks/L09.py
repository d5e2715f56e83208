from vlib.libcheck import libmain


def main(chk):
    libmain(chk, ["linear"], 500, 3000)
