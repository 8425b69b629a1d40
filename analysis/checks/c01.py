"""Ordered, lossless delivery of examples by the multi-threaded readers.

The flow graph is reconstructed from the node constructions and connections on every path through the code that
builds it; the node bodies, the consumer side and the batch numbering are interpreted path-sensitively."""
from absint import show
from model import base_name
from pipeline import *

ASSUMPTIONS = ["TBB's nodes behave as documented: a sequencer forwards consecutive sequence numbers from 0 in order, a serial function node runs one body at a time in arrival order, a limiter forwards at most threshold messages until its decrementer is signalled."]


def run(ck):
    m = ck.model("core")
    cls = reader_class(ck, m)
    gb = graph_builder(ck, m, cls)
    res = [r for r in paths(ck, m, gb) if r.outcome == "return" and any(nm(e.name, "make_edge") for e in r.trace)]
    ck.need(res, "a path that connects the flow graph")
    for r in res[:64]:
        check_graph(ck, m, cls, gb, r)
    numbering(ck, m)
    # bodies once
    nodes, edges = graph_of(res[0])
    bodies(ck, m, cls, gb, nodes)
    consumer(ck, m, cls)


def check_graph(ck, m, cls, gb, r):
    nodes, edges = graph_of(r)
    w = gb.where()
    kinds = {}
    for n in nodes.values():
        kinds.setdefault(n.kind, []).append(n)
    src = kinds.get("source_node", []) + kinds.get("input_node", [])
    if not ck.ob("G1 one source", gb.name, len(src) == 1, "the graph has %d source nodes" % len(src), w):
        return
    succ = {}
    for a, ar, b, br, e in edges:
        ck.ob("G0 edges resolved", gb.name, a is not None and b is not None, "an edge connects an object that is not one of the graph's nodes", where(e))
        succ.setdefault(a, []).append((b, br))
    # follow the message path
    cur, order, seen = src[0].ident, [], set()
    while cur is not None and cur not in seen:
        seen.add(cur)
        order.append(nodes[cur])
        nxt = [b for b, br in succ.get(cur, ()) if br != "decrement" and b is not None]
        ck.ob("G2 linear message path", gb.name, len(nxt) <= 1, "node %s has %d message successors" % (nodes[cur].kind, len(nxt)), w)
        cur = nxt[0] if nxt else None
    ks = [n.kind for n in order]
    ck.ob("G3 every node on the path", gb.name, len(order) == len(nodes), "nodes outside the message path: path is %s" % ks, w)
    # an unordered stage must be followed by a sequencer that feeds a serial sink
    last_par = max([i for i, n in enumerate(order) if n.kind in ("function_node", "multifunction_node") and n.conc != "serial"], default=-1)
    seqs = [i for i, n in enumerate(order) if n.kind == "sequencer_node"]
    ck.ob("G4 order restored after the parallel stage", gb.name, last_par < 0 or any(i > last_par for i in seqs),
          "messages leave the parallel stage without passing a sequencer: %s" % ks, w)
    sink = order[-1]
    ck.ob("G5 serial delivery", gb.name, sink.kind in ("function_node",) and sink.conc == "serial",
          "the delivering stage is %s/%s" % (sink.kind, sink.conc), w)
    for i, n in enumerate(order):
        if n.kind in ("function_node", "multifunction_node") and n.type.find("rejecting") >= 0:
            ck.ob("G6 no message is rejected", gb.name, False, "stage %s uses the rejecting policy" % n.kind, w)
    bad = [k for k in ks if k in ("buffer_node", "priority_queue_node", "overwrite_node", "write_once_node", "broadcast_node")]
    ck.ob("G6 no message is rejected", gb.name, not bad, "stages %s can reorder or drop messages" % bad, w)
    # limiter: its tokens come back from the delivering stage
    for n in kinds.get("limiter_node", []):
        dec = [a for a, ar, b, br, e in edges if b == n.ident and br == "decrement"]
        li = order.index(n)
        ck.ob("G7 limiter tokens return", gb.name, len(dec) == 1 and nodes.get(dec[0]) in order[li + 1:],
              "the limiter is decremented by %s" % [nodes[d].kind for d in dec if d in nodes], w)
        if len(dec) == 1 and dec[0] in nodes:
            # every message that passes the limiter must reach the decrementing stage
            d = nodes[dec[0]]
            ck.ob("G8 decrementing stage emits once per message", gb.name,
                  d.kind == "function_node" or d.kind == "multifunction_node", "decremented by " + d.kind, w)
    # threshold is never zero: examined by facts
    for n in kinds.get("limiter_node", []):
        ck.saw(gb)


def outs(trace, meth):
    return [e for e in evs(trace, "call", meth)]


def bodies(ck, m, cls, gb, nodes):
    for n in nodes.values():
        if n.lambda_ is None:
            continue
        box = n.lambda_[3]
        f = box.env.fn if box.env is not None and box.env.fn is not None else gb
        rs = lambda_paths(ck, m, box.node, f, this_cls=cls, opaque=lambda fn, c: fn.short in ("read_instance_batch", "decode", "size_bytes", "bits"))
        w = gb.where(box.node["l"])
        if n.kind in ("source_node", "input_node"):
            for r in rs:
                if r.outcome != "return":
                    continue
                reads = outs(r.trace, "read_instance_batch")
                ck.ob("S1 the source reads one batch per activation", gb.name + "/source", len(reads) == 1, "a path reads %d batches" % len(reads), w)
                if not reads:
                    continue
                ret = r.value
                got = [v for a, v in facts(r.trace) if a == ("has", reads[0].extra)]
                if ret == ("c", False):
                    ck.ob("S2 the source stops only at the end of the dataset", gb.name + "/source", got and got[-1] is False,
                          "the source reports the end although a batch was read (or without having tested it)", w)
                elif ret == ("c", True):
                    ck.ob("S3 every batch read is sent", gb.name + "/source", got and got[-1] is True and any(
                        e.kind in ("write", "lwrite") and contains(e.args, reads[0].extra) and root_is(e.obj, "arg0") for e in r.trace),
                        "the source reports a message without having stored the batch that it read in it", w)
                else:
                    ck.ob("S2 the source stops only at the end of the dataset", gb.name + "/source", False, "the source's result does not depend on the end of the dataset: %s" % show(ret), w)
        elif n.kind in ("multifunction_node", "function_node") and any(outs(r.trace, "decode") for r in rs):
            for r in rs:
                if r.outcome != "return":
                    continue
                dec = outs(r.trace, "decode")
                puts = outs(r.trace, ("try_put",)) if n.kind == "multifunction_node" else None
                ck.ob("D1 each batch is decoded once", gb.name + "/decode", len(dec) == 1, "a path decodes %d times" % len(dec), w)
                if n.kind == "multifunction_node":
                    ck.ob("D2 one message per batch, decoded or not", gb.name + "/decode", len(puts) == 1,
                          "a path sends %d messages to the ordering stage (facts: %s)" % (len(puts), fact_texts(r.trace)), w)
                    msg = puts[0].args[0] if puts else None
                else:
                    msg = r.value
                if msg is not None and dec:
                    d = agg(msg)
                    idx = [v for v in d.values() if v == ("m", "mlio::Instance_batch::index", ("?",), ()) or mentions_batch_index(v)]
                    ck.ob("D3 the message carries the batch's number", gb.name + "/decode", len(idx) == 1,
                          "the message %s does not carry the number of the batch" % show(msg), w)
                    ck.ob("D4 the message carries the decoded example", gb.name + "/decode", any(v == dec[0].extra for v in d.values()),
                          "the message %s does not carry the result of the decoder" % show(msg), w)
                    b = [x for x in dec[0].args]
                    ck.ob("D5 the decoder gets the message's batch", gb.name + "/decode", any(mentions(x, lambda t: t == ("obj", "arg0")) for x in list(dec[0].args) + list(dec[0].locs) if x),
                          "the decoder is not called with the received batch", w)
        elif n.kind == "sequencer_node":
            # the key must be the field that the decode stage filled with the batch number
            for r in rs:
                if r.outcome == "return":
                    ck.ob("Q1 ordered by batch number", gb.name + "/sequencer", seq_key_ok(ck, m, gb, nodes, cls, r.value),
                          "the sequence number is %s" % show(r.value), w)
        elif n.kind == "function_node" and n.conc == "serial":
            for r in rs:
                if r.outcome != "return":
                    continue
                push = [e for e in r.trace if e.kind == "call" and short(e.name) in ("push_back", "emplace_back") and is_queue(e)]
                other = [e for e in r.trace if e.kind == "call" and is_queue(e) and short(e.name) in ("push_front", "emplace_front", "insert", "emplace", "erase", "pop_back", "pop_front", "clear", "resize")]
                ck.ob("K1 delivered at the back of the queue only", gb.name + "/queue", not other, "the queue stage calls %s" % [short(e.name) for e in other], w)
                null = [v for a, v in facts(r.trace) if a[0] == "has" and mentions(a, lambda t: t == ("obj", "arg0"))]
                canc = [e for e in r.trace if e.kind == "call" and short(e.name) == "is_group_execution_cancelled"]
                cancelled = any(a[0] == "has" and v and any(a[1] == e.extra for e in canc) for a, v in facts(r.trace))
                if null and null[-1] is False:
                    ck.ob("K2 nothing is queued for a failed batch", gb.name + "/queue", not push, "an empty message is queued", w)
                elif cancelled:
                    ck.ob("K3 a cancelled reader may drop examples", gb.name + "/queue", True)
                else:
                    ck.ob("K4 every decoded example is queued exactly once", gb.name + "/queue",
                          len(push) == 1 and mentions(push[0].args, lambda t: t == ("obj", "arg0")),
                          "a decoded example is queued %d times on a path (facts: %s)" % (len(push), fact_texts(r.trace)), w)


def is_queue(e):
    return e.obj is not None and (e.name.startswith("std::deque") or e.name.startswith("std::vector") or e.name.startswith("std::list") or e.name.startswith("std::queue")) and root_is(e.obj, "this")


def root_is(L, who):
    while isinstance(L, tuple) and L and L[0] in ("f", "e"):
        L = L[1]
    if L and L[0] == "*":
        x = L[1]
        return mentions(x, lambda t: t == ("obj", who))
    return L == ("obj", who)


def agg(v):
    if v[0] == "agg":
        return dict(v[2])
    return {"?": v}


def mentions_batch_index(v):
    """index() of the received batch is inlined to the field that holds it."""
    return mentions(v, lambda t: t == ("obj", "arg0")) and (mentions(v, lambda t: len(t) > 2 and t[0] == "f" and t[2] in batch_index_fields))


batch_index_fields = set()


def seq_key_ok(ck, m, gb, nodes, cls, key):
    """The sequencer's key is the message field which the decode stage fills with the
    batch's number."""
    for n in nodes.values():
        if n.kind not in ("multifunction_node", "function_node") or n.lambda_ is None:
            continue
        box = n.lambda_[3]
        rs = lambda_paths(ck, m, box.node, gb, this_cls=cls, opaque=lambda fn, c: fn.short in ("read_instance_batch", "decode", "size_bytes", "bits"))
        for r in rs:
            puts = outs(r.trace, "try_put")
            if puts and outs(r.trace, "decode"):
                d = agg(puts[0].args[0])
                fl = [k for k, v in d.items() if mentions_batch_index(v)]
                return key[0] == "init" and key[1][0] == "f" and key[1][2] in fl and key[1][1] == ("obj", "arg0")
    return False


def consumer(ck, m, cls):
    f = m.method(cls, "read_example_core")
    ck.need(f, "read_example_core of " + cls)
    rs = paths(ck, m, f, opaque=lambda fn, c: fn.short in ("peek_instance",))
    w = f.where()
    queues = {e.obj for r in rs for e in r.trace if e.kind == "call" and is_queue(e) and short(e.name) == "pop_front"}
    ck.need(queues, "the queue from which examples are handed out")
    for r in rs:
        if r.outcome != "return":
            continue
        pops = [e for e in r.trace if e.kind == "call" and is_queue(e) and short(e.name) in ("pop_front",)]
        bad = [e for e in r.trace if e.kind == "call" and is_queue(e) and short(e.name) in ("pop_back", "clear", "erase", "resize", "push_front", "push_back", "emplace_front")]
        ck.ob("R1 the consumer takes from the front only", f.name, not bad, "the consumer calls %s" % [short(e.name) for e in bad], w)
        fronts = [e for e in r.trace if e.kind == "call" and is_queue(e) and short(e.name) == "front"]
        if r.value == ("null",):
            ck.ob("R2 the end is reported only with an empty queue", f.name, not pops and all(known_empty(r.state, L) is True for L in queues),
                  "no example is returned although the queue was not found empty (facts: %s)" % fact_texts(r.trace), w)
        else:
            ck.ob("R3 each example is handed out once", f.name, len(pops) == 1 and bool(fronts), "a path pops %d elements" % len(pops), w)
            if pops and fronts:
                ck.ob("R4 the example returned is the one removed", f.name, pops[0].obj == fronts[-1].obj and list(r.trace).index(fronts[-1]) < list(r.trace).index(pops[0]),
                      "the element read is not the one removed", w)
        # queue exchange only when the consumer's queue is empty
        for i, e in enumerate(r.trace):
            if e.kind == "call" and short(e.name) in ("swap",) and (e.obj is not None and is_queue(e) or e.locs and any(L and root_is(L, "this") for L in e.locs)):
                L = [x for x in (list(e.locs) + [e.obj]) if x]
                empt = [(x.name, x.args[0]) for x in r.trace[:i] if x.kind == "fact"]
                ok = any(v and a[0] == "has" and a[1][0] == "m" and a[1][1].endswith("::empty") and a[1][2] in L for a, v in empt) or any(
                    a[0] == "eq0" and v and mentions(a, lambda t: isinstance(t, tuple) and len(t) > 2 and isinstance(t[1], str) and t[1].endswith("::size") and t[2] in L) for a, v in empt)
                ck.ob("R5 queues are exchanged only when the consumer's is empty", f.name, ok, "queues are exchanged while the consumer's queue may hold examples", where(e))


def numbering(ck, m):
    """Batches are numbered 0, 1, 2, ... without gaps."""
    cls = "mlio::detail::Instance_batch_reader"
    f = m.method(cls, "read_instance_batch")
    ck.need(f, "read_instance_batch")
    rs = paths(ck, m, f, opaque=lambda fn, c: fn.short in ("read_instance",))
    w = f.where()
    # role: the counter is the field passed as the number of the batch
    bcls = "mlio::Instance_batch"
    n = 0
    cnt = set()
    for r in rs:
        if r.outcome != "return" or r.value == ("null",):
            continue
        v = r.value
        fl = [t for t in subterms(v) if len(t) == 2 and t[0] == "init" and is_this_field(t[1])]
        for t in fl:
            if any(e.kind == "write" and e.obj == t[1] for e in r.trace):
                cnt.add(t[1])
    ck.need(len(cnt) == 1, "the batch counter (found %s)" % [show(c) for c in cnt])
    c = cnt.pop()
    for r in rs:
        if r.outcome != "return":
            continue
        wr = [e for e in r.trace if e.kind == "write" and e.obj == c]
        if r.value == ("null",):
            ck.ob("N1 no number is used up without a batch", f.name, not wr, "the counter changes on a path that returns no batch (facts: %s)" % fact_texts(r.trace), w)
        else:
            ok = len(wr) >= 1 and wr[-1].args[0] == ("lin", 1, ((("init", c), 1),))
            ck.ob("N2 the counter advances by one per batch", f.name, ok, "the counter becomes %s on a path that returns a batch" % [show(e.args[0]) for e in wr], w)
            # which field of the batch holds it
            d = batch_fields(r.value)
            ks = [k for k, x in d.items() if x == ("init", c)]
            ck.ob("N3 the batch carries the counter's value", f.name, len(ks) == 1, "the batch returned does not carry the counter: %s" % show(r.value), w)
            batch_index_fields.update(ks)
    g = [x for x in m.methods(bcls) if x.short == "index"]
    ck.need(g, "Instance_batch::index")


def batch_fields(v):
    while v[0] in ("some",):
        v = v[1]
    if v[0] == "agg":
        return dict(v[2])
    return {}


def subterms(t):
    if isinstance(t, tuple):
        yield t
        for x in t:
            yield from subterms(x)
