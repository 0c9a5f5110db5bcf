'''Deterministic simulation of s3ql (see /verif/DESIGN.md).'''
