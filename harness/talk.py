"""Programs of requests, frames, values and table changes, and the text they print."""
from hypothesis import strategies as st

import gen
import ref
from core import attempt, sut
from props import c20, c22
from props.c21 import damage
from world import World, dpt_class, make_state, to_msg


def plain(f, *a):
    """The text of a result or an error."""
    ok, r = attempt(f, *a)
    return repr(r) if ok else "%s: %s" % (type(r).__name__, r)


def stack(case):
    world = World(case["tables"])
    state = make_state(case["medium"], world.at, world.got)
    if case["medium"] == "ip":
        state.sequence_counter_local, state.sequence_counter_remote, state.communication_channel_id = case["start"]
    return world, state


def transcript(case, out):
    """Everything a program would print."""
    play(*stack(case), case["medium"], case["ops"], out)


def play(world, state, medium, ops, out):
    K = sut()
    D = K.datapointtypes.Description_Factory
    for op in ops:
        if op[0] == "table":
            world.apply(op[1])
            out += [repr(world.table), repr(world.at), repr(world.got)]
        elif op[0] == "value":
            d = dpt_class(op[1])()
            d.value = op[2] & ref.DPTS[op[1]].maxraw
            n, fields = D.make(d)
            out += [repr(d), n, repr(list(fields.items()))]
            out.append(plain(K.datapointtypes.DPT_Factory.make, n, dict(fields, **{op[3]: 1} if op[3] else {})))
        elif op[0] == "encode":
            if op[1]["kind"] in ("ack", "connect", "connstate", "disconnect", "search") and medium != "ip":
                continue
            msg = c22.make_request(world, op[1])
            out += [repr(msg), plain(K.encode_msg, state, msg)]
        else:
            data = c20.build(world, medium, dict(op[1], seq=(state.sequence_counter_remote + (op[1]["seq"] % 4 - 1 if op[1]["seq"] % 8 else 0)) % 256))
            if data is None:
                continue
            if op[0] == "damaged":
                data = damage(data, op[2])
            ok, r = attempt(K.decode_msg, state, to_msg(medium, data))
            out.append("%s %r" % (data.hex(), r) if ok else "%s %s: %s" % (data.hex(), type(r).__name__, r))
            for m in r if ok else []:
                if getattr(m, "dpt", None) is not None:
                    out.append(repr(list(D.make(m.dpt)[1].items())))
    out.append(plain(repr, state))


@st.composite
def texts(draw):
    case = draw(c22.cases())
    value = st.tuples(st.just("value"), gen.name, st.integers(0, 2 ** 32 - 1), st.sampled_from(["", "", "value", "no_such_field"])).map(list)
    return dict(case, ops=draw(st.permutations(case["ops"] + draw(st.lists(value, min_size=1, max_size=5)))))
