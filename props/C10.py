"""C10 selection rules: the contracts of transition_allowed of the three kinds of transitions"""
from props import proofs


def prove(S):
    S.use(*proofs.TEXT, proofs.SHIFT, proofs.GF, proofs.FINE, proofs.HF, proofs.ZEE)
    proofs.fine_allowed(S)
    proofs.hf_allowed(S)
    proofs.z_allowed(S)
