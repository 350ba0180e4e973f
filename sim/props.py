"""Which simulation decides which property, and which violation classes belong to it."""

ALL_TILE = ("fail", "stuck", "hang", "steps", "content", "landcover", "obia", "cmmap", "obrecord", "tmpleft", "extra", "input", "flag", "flagcontent")
ALL_STACK = ("fail", "stuck", "hang", "steps", "content", "extra", "dates", "input")

# own: classes that are violations of the property.  faultonly: classes that are only violations of this property when
# the same job without faults does not show them (otherwise another property is the broken one)
PROPS = {
    "C01": dict(mod="tile", own=("fail", "stuck", "hang", "steps", "content", "extra", "input"), faultonly=()),
    "C02": dict(mod="tile", own=("flag", "flagcontent", "silent"), faultonly=("flagcontent", "silent")),
    "C03": dict(mod="tile", own=ALL_TILE, faultonly=ALL_TILE),
    "C04": dict(mod="tile", own=("fail", "content", "obia", "cmmap", "obrecord", "flagcontent"), faultonly=()),
    "C05": dict(mod="tile", own=("fail", "stuck", "hang", "steps"), faultonly=()),
    "C06": dict(mod="tile", own=("fail", "stuck", "hang", "steps", "landcover", "tmpleft"), faultonly=()),
    "C07": dict(mod="stack", own=("fail", "stuck", "hang", "steps", "content", "extra", "dates", "input"), faultonly=()),
    "C08": dict(mod="stack", own=ALL_STACK + ("gate",), faultonly=ALL_STACK),
    "C09": dict(mod="export", own=("fail", "stuck", "hang", "steps", "content", "grid", "tmpleft", "input", "mpi"), faultonly=()),
    "C10": dict(mod="native", own=("crash", "hang", "invent", "order", "lost", "altered", "input", "diverge", "state", "store", "refused", "forgotten", "identify", "anomaly", "twice", "missed", "wrong", "cut", "model", "trust"), faultonly=()),
    "C11": dict(mod="native", own=("crash", "hang", "wrong", "exc", "later", "input", "overrun"),
                faultonly=("crash", "hang", "wrong", "exc", "later", "input", "overrun")),
    "C12": dict(mod="native", own=("crash", "hang", "diff", "input", "overrun"), faultonly=(), main="autozero", variants=("plain", "autopattern")),
    "C13": dict(mod="chain", own=("fail", "stuck", "hang", "steps", "content", "grid", "tmpleft", "input", "mpi"), faultonly=()),
}
