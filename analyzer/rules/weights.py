from iba.rules import prop


def args(p):
    return "@cast('u32', len(%s.merkle_proof.hashes)), @cast('u32', len(%s.transaction.inputs)), @cast('u32', len(%s.transaction.outputs)), %s.tx_encoded_len" % (p, p, p, p)


def worst(names, p):
    xs = ["Config::%s(%s)" % (n, args(p)) for n in names]
    r = xs[0]
    for x in xs[1:]:
        r = "max(%s, %s)" % (r, x)
    return r


@prop("W01")
def proofs(c):
    for fid, names in (("issue::weight_for_execute_issue", ["execute_issue_underpayment", "execute_issue_exact", "execute_issue_overpayment", "execute_expired_issue_underpayment",
                                                            "execute_expired_issue_exact", "execute_expired_issue_overpayment"]),
                       ("redeem::weight_for_execute_redeem", ["execute_redeem"]),
                       ("replace::weight_for_execute_replace", ["execute_pending_replace", "execute_cancelled_replace"])):
        v = c.fn(fid, args="p")
        v.returns("%s + %s" % (worst(names, "p.coinbase_proof"), worst(names, "p.user_tx_proof")), why="the charge covers both proofs at the most expensive outcome")
