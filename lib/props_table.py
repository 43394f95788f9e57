# level: proof = every obligation listed for the property is discharged by the verifier on /repo's source;
# other = no contract reaches it yet, bounded native run only (labelled bounded)
def entry(engine, **kw):
    d = dict(engine=engine, technique="Kani contracts, discharged by CBMC; bounded native run as complement",
             level="proof", note="", engine_secs=25)
    d.update(kw)
    if d["level"] == "other":
        d["technique"] = "bounded native run (contracts under construction)"
        d["explain"] = "bounded: generated cases through the public interface against an independent expectation"
        d["note"] = "bounded stand-in, nothing proved yet"
    return d

PROPS.update({
 "C01": entry(["ic"], note="One call of the integer coder for all inputs of each width, entropy coder by contract."),
})
for i, e in [("C02", ["coder"]), ("C03", ["coder"]), ("C04", ["carry", "coder"]), ("C05", ["legacy"]), ("C06", ["layered"]),
             ("C07", ["selective"]), ("C08", ["vlr"]), ("C09", ["chunktable"]), ("C10", ["stream"]), ("C11", ["seek", "seekpar"]),
             ("C12", ["append"]), ("C13", ["parallel"]), ("C14", ["pack"]), ("C15", ["slices"]), ("C16", ["damaged", "werr"]), ("C17", ["refdiff", "coder"])]:
    PROPS[i] = entry(e, level="other")
PROPS["C16"]["asan"] = ["damaged", "werr"]
PROPS["C02"]["verus"] = ["coder"]
PROPS["C03"]["verus"] = ["models"]
PROPS["C04"]["verus"] = [dict(name="coder", only=r"^encoders.rs")]
PROPS["C16"]["verus"] = [dict(name="coder", safety=True)]
PROPS["C17"]["verus"] = ["coder"]
