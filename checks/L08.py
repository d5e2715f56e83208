from vlib.libcheck import libmain


def main(chk):
    libmain(chk, ["times"], 3000, 6000)
