from hypothesis import strategies as st

import gen
import ref
from core import Sub, call, eq, refused, require, sut
from world import AS, GA, IA, compare, decode, dpt_class, make_state

ID = "C31"
ASSUME = ["The name an entry is listed with, when equal access points carry different names, is not stated."]
DST = 0x0A0B


def listed(table):
    out = []
    for a, d in list(table.associations):
        require(isinstance(d, type) and d is dpt_class(d.__name__), "%r is listed with %r", a, d)
        out.append((a.value, d.__name__))
    return out


def check(case, ctx):
    K = sut()
    model = {}
    init = {}
    for a, n, name in case["init"]:
        init[AS(a, name)] = dpt_class(n)
        model[a] = n
    form = case["form"]
    table = K.GroupObjectTable(init) if init or form == 0 else K.GroupObjectTable() if form == 1 else K.GroupObjectTable(None)
    # a stack on top of it: every access point listens to one address, except those that listen to nothing
    asaps = sorted({a for a, _, _ in case["init"]} | {op[1] for op in case["ops"]})
    deaf = set(asaps[::3][1:])
    at = K.AssociationTable(K.AddressTable(IA(0x1101), [], 255), [])
    for a in asaps:
        at.associate(AS(a), [GA(0x0A0C if a in deaf else DST)])
    m = case["medium"]
    state = make_state(m, at, table)
    dropped = 0
    for op in [None] + case["ops"]:
        if op:
            k, a, name = op[0], op[1], op[2]
            if k == "set":
                dropped += a in model and model[a] != op[3]
                call("associating %d with %s" % (a, op[3]), table.associate, AS(a, name), dpt_class(op[3]))
                model[a] = op[3]
            elif a in model:
                call("disassociating %d" % a, table.disassociate, AS(a, name))
                del model[a]
                dropped += 1
            else:
                require(refused(table.disassociate, AS(a, name)), "disassociating %d, which has no datapoint type, was not refused", a)
                ctx.label("refused")
        eq("datapoint types by access point", sorted(listed(table)), sorted(model.items()))
        eq("number of entries", len(table.associations), len(model))
        # what a telegram becomes: one octet long, delivered to all that have a type
        c = ref.cemi(ref.IND, ref.ldata(0xBC, 0xE0, 0x1234, DST, ref.group_apdu(ref.READ)))
        data = ref.usb(c) if m == "usb" else ref.tun_req(3, 0, c)
        want = [{"kind": "GroupReadInd", "asap": a, "dpt": n, "reading": None} for a, n in model.items() if a not in deaf]
        pre = [{"kind": "TunReq", "seq": 0, "status": 0}] if m == "ip" else []
        compare("a read after %r" % (op,), decode(state, m, data), pre + want)
    ctx.label("operations", len(case["ops"]))
    ctx.nontrivial(dropped > 0 and len(model) > 0)


@st.composite
def cases(draw):
    asaps = draw(st.lists(gen.asap, min_size=1, max_size=5, unique=True))
    A, N = st.sampled_from(asaps), st.one_of(st.none(), st.sampled_from(["", "lamp", "x"]))
    op = gen.weighted((3, st.tuples(st.just("set"), A, N, gen.name)), (2, st.tuples(st.just("drop"), A, N))).map(list)
    return {"init": draw(st.lists(st.tuples(A, gen.name, N).map(list), max_size=4)), "form": draw(st.integers(0, 2)),
            "medium": draw(st.sampled_from(["usb", "ip"])), "ops": draw(gen.some(op, 2, 12))}


SUBS = [Sub("history", check, "an entry was replaced or removed and one is left", cases, quick=1500)]
