#!/usr/bin/env python3
"""Builds the scratch workspaces once (each check rebuilds what it needs anyway)."""
import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "lib"), os.path.join(HERE, "checks")]
import ws
ws.build("native", "sym/harness")
ws.build("symfr", "sym/harness", features="symharness/sym", symfields=(("bn256", "fr"),))
import irws, field
irws.build("irfield", field.wrappers())

ws.build_alg()

import irprog
irws.build("irvm", irprog.W01, "ckb_bf_vm", ["halo2", "halo2_gadgets", "halo2_proofs", "halo2curves", "poseidon"])
irws.build_chain()
irws.build_prover()
