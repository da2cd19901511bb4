"""W02: temporal discretization of a weak formulation (interleaved with derivations)."""
import w01


def run(ck):
    w01.run(ck, ops={'td', 'rearr', 'split', 'delete', 'switch'}, tag='temporal discretization')
