from vlib.libcheck import libmain


def main(chk):
    libmain(chk, ["core_ops"], 500, 3000)
