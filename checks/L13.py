from vlib.libcheck import libmain


def main(chk):
    libmain(chk, ["trees"], 400, 3000)
