from vlib.libcheck import libmain


def main(chk):
    libmain(chk, ["math_fns"], 3000, 6000)
