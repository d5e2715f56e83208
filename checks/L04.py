from vlib.libcheck import libmain


def main(chk):
    libmain(chk, ["regexes"], 900, 4000)
