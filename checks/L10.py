from vlib.libcheck import libmain


def main(chk):
    libmain(chk, ["dists"], 700, 4000, shards=8)
