"""The ethy gadget: witnesses are verified before they count, proofs need a quorum, gossip is filtered."""
from .base import *
from ..pat import P, F, match, holds
from ..terms import isT, subterms
from ..terms import show

CR = "ethy-gadget"
ID = "P0.event_id"


def at(m, k):
    return "op('get', %s, %s)" % (m, k)


META = at("SELF.event_meta", ID)
SEEN = at("SELF.has_witnessed", ID)


def opq(*names):
    return tuple((CR, n) for n in names)


def cut(k):
    return "alt(after(P0, {0}), op('f', mc('split_at', P0, {0}), '1'))".format(k)


def val(t):
    return show(t.val)


@prop("W01")
def witness(ctx):
    r = "W01.note"
    e = ctx.entry(CR, "note_event_witness", ty="WitnessRecord", opaque=opq("verify_prehashed", "data_to_digest"), outs=True)
    key = "alt(mc('serialize_compressed', call('*parse_slice', P0.authority_id, good(var('Compressed'))).q), op('rep', 0, 33))"
    dig = "call('data_to_digest', %s.q.chain_id, %s.q.digest_data, %s)" % (META, META, key)
    ver = [t for t in e.ok if "Verified" in val(t)]
    un = [t for t in e.ok if "DigestUnverified" in val(t)]
    ctx.check(r + ".statuses", e.where, len(ver) >= 2 and len(un) >= 2 and len(ver) + len(un) == len(e.ok),
              "every accepted witness is either Verified or DigestUnverified")
    for ts, n in ((ver, "verified"), (un, "unverified")):
        e.req(r + ".new." + n, "absent(%s) or bad(mc('binary_search', %s.q, P0.authority_id))" % (SEEN, SEEN), traces=ts)
        e.req(r + ".after_watermark." + n,
              "len(SELF.completed_events) <= 1 or absent(op('get', SELF.completed_events, 0)) or %s > op('get', SELF.completed_events, 0).q" % ID, traces=ts)
        e.req(r + ".open." + n, "%s not in SELF.completed_events" % ID, traces=ts)
    e.req(r + ".metadata", "good(%s)" % META, traces=ver)
    e.req(r + ".digest", "good(%s)" % dig, traces=ver)
    e.req(r + ".digest.same", "P0.digest == %s.q" % dig, traces=ver)
    e.req(r + ".signature", "truth(call('*verify_prehashed', P0.authority_id, P0.signature, %s.q))" % dig, traces=ver)
    e.req(r + ".authority", "P0.authority_id in SELF.validators.validators", traces=ver)
    e.req(r + ".unverified", "absent(%s)" % META, traces=un)
    # what is remembered
    IDX = "op('pos', SELF.validators.validators, _)"
    PAIR = "tup(%s, P0.signature)" % IDX
    W = "SELF.witnesses"
    HW = "SELF.has_witnessed"
    fresh_w = "chg(_, witnesses=mut('insert', %s, %s, vec(%s)))" % (W, ID, PAIR)
    more_w = "chg(_, witnesses=has(mut('insert', _, op('errof', mc('binary_search_by_key', _, %s, _)), %s)))" % (IDX, PAIR)
    e.must(r + ".first", "out('self', has(mut('insert', %s, %s, vec(%s))))" % (W, ID, PAIR), when="absent(%s)" % at(W, ID), traces=ver)
    e.must(r + ".voted_first", "out('self', has(mut('insert', %s, %s, vec(P0.authority_id))))" % (HW, ID), when="absent(%s)" % SEEN, traces=ver)
    e.must(r + ".voted", "out('self', has(mut('insert', _, op('errof', mc('binary_search', _, P0.authority_id)), P0.authority_id)))",
           when="good(%s)" % SEEN, unless="good(mc('binary_search', op('idx', %s, %s), P0.authority_id))" % (HW, ID), traces=ver)
    e.must(r + ".more", "out('self', has(mut('insert', op('idx', %s, %s), op('errof', mc('binary_search_by_key', _, %s, ...)), %s)))" % (W, ID, IDX, PAIR),
           when="good(%s)" % at(W, ID), unless="good(mc('binary_search_by_key', op('idx', %s, %s), ...))" % (W, ID), traces=ver)
    e.must(r + ".kept_for_later", "out('self', upd(SELF, unverified_witnesses=alt(mut('insert', SELF.unverified_witnesses, %s, vec(P0)), has(mut('push', op('idx', SELF.unverified_witnesses, %s), P0)))))" % (ID, ID), traces=un)
    e.noeffect(r + ".refused_changes_nothing", kinds=("out",), traces="err")
    # verification is that of the keystore's curve, over the digest itself
    e = ctx.entry(CR, "verify_prehashed", ty="EthyKeystore")
    e.returns("W01.verify", "call('*verify_prehashed', P1, P2, P0)")
    e = ctx.entry(CR, "data_to_digest", ty=None)
    e.returns("W01.digest.xrpl", "good(call('*digest_for_multi_signing_pre', P1, P2))", when="isv(P0, 'Xrpl')")
    e.returns("W01.digest.ethereum", "P1", when="notv(P0, 'Xrpl') or isv(P0, 'Ethereum')")


@prop("W02")
def quorum(ctx):
    r = "W02"
    e = ctx.entry(CR, "has_consensus", ty="WitnessRecord")
    got = at("SELF.witnesses", "P0")
    for chain, vs in (("Ethereum", "validators"), ("Xrpl", "xrpl_validators")):
        eth = "isv(P1, 'Ethereum')" if chain == "Ethereum" else "(notv(P1, 'Ethereum') or isv(P1, 'Xrpl'))"
        need = "max(1, SELF.%s.proof_threshold)" % vs
        if chain == "Ethereum":
            n = "len(%s.q)" % got
        else:
            n = ("len(coll({0}.q, _, both(has(op('get', SELF.validators.validators, elem({0}.q).f0)), has(SELF.xrpl_validators.validators))))".format(got))
        e.returns(r + ".quorum." + chain, "op('not', op('lt', %s, %s))" % (n, need), when="%s and good(%s)" % (eth, got))
        e.returns(r + ".none." + chain, "op('not', op('lt', 0, %s))" % need, when="%s and absent(%s)" % (eth, got))
    # only XRPL signers count towards an XRPL proof
    e = ctx.entry(CR, "try_make_proof", ty="EthyWorker",
                  opaque=opq("has_consensus", "mark_complete", "process_unverified_witnesses", "signatures_for", "event_metadata", "make_proof_key", "data_to_digest"))
    r = "W02.proof"
    meta = "mc('event_metadata', _, P0)"
    cons = "mc('has_consensus', _, P0, %s.q.chain_id)" % meta
    proof = ("struct('EventProof', digest=_, event_id=P0, validator_set_id=SELF.validator_set.id, block=%s.q.block_hash, signatures=mc('signatures_for', _, P0))" % meta)
    key = "call('make_proof_key', %s.q.chain_id, P0)" % meta
    ins = "call('*insert_aux', SELF.backend, vec(tup(%s, mc('encode', varst('V1', f0=%s)))), vec())" % (key, proof)
    ins = "call('*insert_aux', SELF.backend, vec(tup(%s, has(%s))), vec())" % (key, proof)
    e.each(r + ".known", "call('*insert_aux', ...)", "good(%s) and truth(%s)" % (meta, cons))
    e.only(r + ".stored", "call", "*insert_aux", [ins], floor=1)
    e.must(r, ins, when="good(%s) and truth(%s)" % (meta, cons), unless="bad(call('data_to_digest', %s.q.chain_id, %s.q.digest_data, _))" % (meta, meta), count=1)
    e.each(r + ".complete", "mc('mark_complete', _, P0)", "truth(%s) and does(%s)" % (cons, ins), floor=2)
    e.must(r + ".done", "mc('mark_complete', SELF.witness_record, P0)", when="does(%s)" % ins)
    e.must(r + ".done_gossip", "mc('mark_complete', SELF.gossip_validator, P0)", when="does(%s)" % ins)
    e.order(r + ".late_witnesses_first", "mc('process_unverified_witnesses', _, P0)", "mc('signatures_for', _, P0)")
    e.must(r + ".late_witnesses", "mc('process_unverified_witnesses', SELF.witness_record, P0)", when="good(%s)" % meta)
    # the key a proof is kept under names its chain and event
    e = ctx.entry(CR, "make_proof_key", ty=None)
    e.returns("W02.key", "mc('concat', vec(b'ETHY', vec(P0), mc('to_be_bytes', P1)))")


@prop("W03")
def record(ctx):
    r = "W03"
    e = ctx.entry(CR, "note_event_metadata", ty="WitnessRecord", outs=True)
    md = "struct('EventMetadata', chain_id=P3, digest_data=P1, block_hash=P2)"
    e.must(r + ".metadata", "out('self', upd(SELF, event_meta=mut('insert', SELF.event_meta, P0, %s)))" % md, when="absent(%s)" % at("SELF.event_meta", "P0"), traces="all")
    kept = [t for t in e.all if any(k.op == "good?" and v for k, v in t.facts.items())]
    e.noeffect(r + ".metadata.first_wins", kinds=("out",), traces=kept)
    e = ctx.entry(CR, "event_metadata", ty="WitnessRecord")
    e.returns(r + ".metadata.read", at("SELF.event_meta", "P0"))
    e = ctx.entry(CR, "signatures_for", ty="WitnessRecord")
    e.returns(r + ".signatures", at("SELF.witnesses", "P0") + ".q", when="good(%s)" % at("SELF.witnesses", "P0"))
    e.returns(r + ".signatures.none", "alt(op('default', ...), vec())", when="absent(%s)" % at("SELF.witnesses", "P0"))
    e = ctx.entry(CR, "set_validators", ty="WitnessRecord", outs=True)
    e.must(r + ".validators", "out('self', upd(SELF, validators=P0, xrpl_validators=P1))")
    e = ctx.entry(CR, "mark_complete", ty="WitnessRecord", outs=True, opaque=opq("compact_sequence"))
    for m in ("witnesses", "event_meta", "has_witnessed", "unverified_witnesses"):
        e.must(r + ".forgotten." + m, "out('self', chg(_, %s=mut('remove', SELF.%s, P0)))" % (m, m))
    bs = "mc('binary_search', SELF.completed_events, P0)"
    ins = "mut('insert', SELF.completed_events, op('errof', %s), P0)" % bs
    e.must(r + ".completed", "out('self', chg(_, completed_events=call('compact_sequence', alt(%s, mc('as_mut_slice', %s)))))" % (ins, ins), unless="good(%s)" % bs)
    e.must(r + ".completed_once", "out('self', nota(chg(_, completed_events=_)))", when="good(%s)" % bs)
    # late witnesses are noted as if they came now
    e = ctx.entry(CR, "process_unverified_witnesses", ty="WitnessRecord", outs=True, opaque=opq("note_event_witness"))
    gone = "mres('remove', SELF.unverified_witnesses, P0)"
    e.each(r + ".late", "mc('note_event_witness', _, elem(%s.q))" % gone)
    e.only(r + ".late.only", ("call", "mcall"), "*note_event_witness", ["mc('note_event_witness', _, elem(%s.q))" % gone], floor=1)
    e.must(r + ".late.all", "mc('note_event_witness', _, elem(%s.q))" % gone, when="good(%s)" % gone, unless="empty(%s.q)" % gone)
    # the watermark only passes events that follow one another, and two are always kept
    e = ctx.entry(CR, "compact_sequence", ty=None, split=True)
    e.returns(r + ".compact.short", "P0", when="len(P0) < 3")
    e.returns(r + ".compact.suffix", "alt(P0, %s, %s)" % (cut("op('phi', 0, _)"), cut("0")))
    e.each(r + ".compact.follows", "carry(same('i', _) + 1)",
           "op('idx', P0, i + 1) == op('idx', P0, i) + 1 and (i < len(P0) - 2 or i + 2 < len(P0) or m_(i, elem(op('range', 0, len(P0) - 2))))", traces="loop")
    e.each(r + ".compact.gap", "carry(_)", "op('idx', P0, {0} + 1) == op('idx', P0, {0}) + 1 or does(kind('leave'))".format("alt(elem(_), op('phi', 0, _))"), traces="loop")


@prop("W04")
def gossip(ctx):
    r = "W04"
    e = ctx.entry(CR, "validate", ty="GossipValidator", trait="Validator", opaque=opq("verify_prehashed"), outs="locks")
    keep = [t for t in e.all if "ProcessAndKeep" in val(t)]
    drop = [t for t in e.all if "Discard" in val(t)]
    ctx.check(r + ".answers", e.where, keep and drop and len(keep) + len(drop) == len(e.all), "every answer is ProcessAndKeep or Discard")
    w = "call('*decode', P2)"
    e.req(r + ".decodes", "good(%s)" % w, traces=keep)
    w += ".q"
    e.req(r + ".active", "%s.authority_id in SELF.active_validators" % w, traces=keep)
    e.req(r + ".signed", "truth(call('*verify_prehashed', %s.authority_id, %s.signature, %s.digest))" % (w, w, w), traces=keep)
    known = at("SELF.known_votes", w + ".event_id")
    e.req(r + ".new", "absent(%s) or bad(mc('binary_search', %s.q, %s.authority_id))" % (known, known, w), traces=keep)
    fin = "mc('info', mc('blockchain', SELF.backend)).finalized_number"
    old = "%%s.block_number < sub(%s, 90)" % fin
    e.req(r + ".live", "%s.block_number >= sub(%s, 90)" % (w, fin), traces=keep)
    # a vote is remembered only once it is verified, at its place
    voted = "out('self', chg(SELF, known_votes=alt(mut('insert', SELF.known_votes, {0}.event_id, vec({0}.authority_id)), has(mut('insert', op('idx', SELF.known_votes, {0}.event_id), op('errof', mc('binary_search', _, {0}.authority_id)), {0}.authority_id)))))".format(w)
    e.only(r + ".voted.only", "out", "*", [(voted, "truth(call('*verify_prehashed', {0}.authority_id, {0}.signature, {0}.digest)) and {0}.authority_id in SELF.active_validators".format(w))], floor=1, traces="all")
    e.must(r + ".voted", voted, traces=keep, count=1)
    dropped = [t for t in drop if not any(x.kind == "out" for x in t.fx)]
    lw = "call('*decode', P2)"
    e.req(r + ".dropped", ("absent({0}) or good(mc('binary_search', {1}.q, {2}.authority_id)) or {2}.authority_id not in SELF.active_validators or false(call('*verify_prehashed', {2}.authority_id, {2}.signature, {2}.digest)) or %s" % (old % "{2}"))
          .format(lw, known, w), traces=drop)
    # expired messages are those out of the window or of a completed event, and are not passed on
    for fn, i, t, f in (("message_expired", 1, "true", "op('good?', %s)"), ("message_allowed", 3, "false", "op('not', op('good?', %s))")):
        e = ctx.entry(CR, fn, ty="GossipValidator", trait="Validator", outs="locks")
        m = "call('*decode', op('cloarg', _, %d))" % i
        reb = "notv(op('cloarg', _, 1), 'PeriodicRebroadcast')" if i == 3 else "always()"
        done = "mc('binary_search', SELF.complete_events, %s.q.event_id)" % m
        e.returns(r + "." + fn + ".undecodable", t, when="absent(%s) and %s" % (m, reb))
        e.returns(r + "." + fn + ".old", t, when="good(%s) and %s and %s" % (m, old % (m + ".q"), reb))
        e.returns(r + "." + fn, f % done, when="good(%s) and %s" % (m, reb), unless=old % (m + ".q"))
        if i == 3:
            due = "call('*now') < SELF.next_rebroadcast"
            per = "isv(op('cloarg', _, 1), 'PeriodicRebroadcast')"
            e.returns(r + ".rebroadcast", "true", when=per, unless=due)
            e.returns(r + ".rebroadcast.early", "false", when=per + " and " + due)
            e.must(r + ".rebroadcast.next", "out('self', upd(SELF, next_rebroadcast=call('*now') + call('*from_secs', 180)))", unless=due)
            e.noeffect(r + ".rebroadcast.kept", kinds=("out",), traces=[x for x in e.ok if any(k.op == "lt" and v for k, v in x.facts.items() if "next_rebroadcast" in show(k))])
    e = ctx.entry(CR, "mark_complete", ty="GossipValidator", outs="locks")
    e.must(r + ".complete.votes", "out('self', chg(_, known_votes=mut('remove', SELF.known_votes, P0)))")
    ce = "alt(SELF.complete_events, mut('pop_front', SELF.complete_events))"
    bs = "mc('binary_search', %s, P0)" % ce
    e.must(r + ".complete", "out('self', chg(_, complete_events=mut('insert', %s, op('errof', %s), P0)))" % (ce, bs), unless="good(%s)" % bs)
    e.must(r + ".complete.bounded", "out('self', chg(_, complete_events=has(mut('pop_front', SELF.complete_events))))", when="len(SELF.complete_events) >= 500")
    e.must(r + ".complete.kept", "out('self', nota(chg(_, complete_events=has(mut('pop_front', SELF.complete_events)))))", when="len(SELF.complete_events) < 500")
    e = ctx.entry(CR, "set_active_validators", ty="GossipValidator", outs="locks")
    e.must(r + ".set_active", "out('self', upd(SELF, active_validators=P0))")
    e = ctx.entry(CR, "authority_id", ty="EthyKeystore")
    e.returns(r + ".own_key", "good(elem(P0))", when="truth(call('*has_keys', SELF.f0.q, vec(tup(mc('to_raw_vec', elem(P0)), var('KeyTypeId', b'eth-')))))")
    e.returns(r + ".no_key", "none", when="absent(SELF.f0)")


@prop("W05")
def worker(ctx):
    r = "W05.witness"
    e = ctx.entry(CR, "handle_witness", ty="EthyWorker", opaque=opq("note_event_witness", "try_make_proof"))
    note = "mc('note_event_witness', SELF.witness_record, P0)"
    e.must(r + ".noted", note, count=1)
    e.each(r + ".gossip", "mc('gossip_message', SELF.gossip_engine, call('*hash', b'ethy'), mc('encode', P0), _)", "good(%s)" % note)
    e.only(r + ".gossip.only", ("call", "mcall"), "*gossip_message", ["mc('gossip_message', SELF.gossip_engine, call('*hash', b'ethy'), mc('encode', P0), _)"], floor=1)
    e.must(r + ".gossiped", "mc('gossip_message', SELF.gossip_engine, _, mc('encode', P0), _)", when="good(%s)" % note, count=1)
    e.must(r + ".proof", "mc('try_make_proof', SELF, P0.event_id)", when="good(%s)" % note, count=1)
    O = opq("note_event_metadata", "try_make_proof", "extract_proof_requests", "data_to_digest", "sign_prehashed", "handle_witness")
    req = "elem(call('extract_proof_requests', P0.header))"
    md = "mc('note_event_metadata', SELF.witness_record, {0}.event_id, {0}.data, {0}.block, {0}.chain_id)".format(req)
    e = ctx.entry(CR, "handle_finality_notification_passive", ty="EthyWorker", opaque=O)
    r = "W05.passive"
    e.must(r + ".metadata", md, unless="empty(call('extract_proof_requests', P0.header))", count=1)
    e.must(r + ".proof", "mc('try_make_proof', SELF, %s.event_id)" % req, unless="empty(call('extract_proof_requests', P0.header))", count=1)
    e.order(r + ".order", md, "mc('try_make_proof', SELF, %s.event_id)" % req)
    e = ctx.entry(CR, "handle_finality_notification_active", ty="EthyWorker", opaque=O)
    r = "W05.active"
    pk = "alt(mc('serialize_compressed', call('*parse_slice', P1, _).q), op('rep', 0, 33))"
    dig = "call('data_to_digest', {0}.chain_id, {0}.data, {1})".format(req, pk)
    sig = "mc('sign_prehashed', SELF.key_store, P1, %s.q)" % dig
    wit = ("struct('Witness', chain_id={0}.chain_id, digest={1}.q, validator_set_id=SELF.validator_set.id, event_id={0}.event_id, authority_id=P1, signature={2}.q, "
           "block_number=alt(mc('number', P0.header), op('default', ...)))").format(req, dig, sig)
    e.only(r + ".only", ("call", "mcall"), "*handle_witness", [("mc('handle_witness', SELF, %s)" % wit, "good(%s) and good(%s)" % (dig, sig))], floor=1)
    e.must(r + ".sent", "mc('handle_witness', SELF, %s)" % wit, when="good(%s) and good(%s)" % (dig, sig), count=1)
    e.must(r + ".metadata", md, when="good(%s)" % sig, count=1)
    e.order(r + ".order", md, "mc('handle_witness', SELF, _)")
    e = ctx.entry(CR, "sign_prehashed", ty="EthyKeystore")
    e.returns("W05.sign", "good(call('*ecdsa_sign_prehashed', SELF.f0.q, var('KeyTypeId', b'eth-'), P0, P1).q.q)")
    # the requests of a block are those of its ethy digest items
    e = ctx.entry(CR, "extract_proof_requests", ty=None)
    it = "mc('try_to', elem(mc('logs', mc('digest', P0))), var('Consensus', b'ETHY')).q"
    f = lambda n: "alt(vp(%s, 'OpaqueSigningRequest', '%s'), %s.%s)" % (it, n, it, n)
    e.returns("W05.requests", "has(struct('ProofRequest', chain_id=%s, event_id=%s, data=%s, block=alt(mc('hash', P0), op('default', ...))))"
              % (f("chain_id"), f("event_proof_id"), f("data")), unless="empty(mc('logs', mc('digest', P0)))")
    e = ctx.entry(CR, "find_authorities_change", ty=None)
    item = "mc('try_to', op('cloarg', ...), var('Consensus', b'ETHY'))"
    e.each("W05.change", "mc('try_to', _, var('Consensus', b'ETHY'))")
    e.must("W05.change.set", "gives('convert_first', good(vp(%s.q, 'AuthoritiesChange', 0)))" % item, when="good(%s) and isv(%s.q, 'AuthoritiesChange')" % (item, item))
    e.must("W05.change.none", "gives('convert_first', none)", unless="good(%s) and isv(%s.q, 'AuthoritiesChange')" % (item, item))
    for fn in ("validator_set", "xrpl_validator_set"):
        e = ctx.entry(CR, fn, ty="EthyWorker")
        e.returns("W05." + fn, "alt(mc('%s', mc('runtime_api', SELF.runtime), mc('hash', P0)), good(mc('%s', mc('runtime_api', SELF.runtime), mc('hash', P0)).q), none)"
                  % (("validator_set", "validator_set") if fn == "validator_set" else ("xrpl_signers", "xrpl_signers")))
    # every finalised block is looked at once, in order
    r = "W05.finality"
    e = ctx.entry(CR, "handle_finality_notification", ty="EthyWorker", outs=True,
                  opaque=opq("handle_finality_notification", "handle_finality_notification_active", "handle_finality_notification_passive",
                             "find_authorities_change", "validator_set", "xrpl_validator_set", "set_active_validators", "set_validators", "authority_id"))
    num, best = "mc('number', P0.header)", "mc('number', SELF.best_grandpa_block_header)"
    newer = "%s < %s" % (best, num)
    A, Pv = "mc('handle_finality_notification_active', _, P0, _)", "mc('handle_finality_notification_passive', _, P0)"
    e.each(r + ".new_block", A, newer)
    e.each(r + ".new_block.passive", Pv, newer)
    e.must(r + ".processed", "%s or %s" % (A, Pv), when=newer, count=1)
    e.must(r + ".progress", "out('self', chg(_, best_grandpa_block_header=P0.header))", when=newer)
    par = "mc('header', mc('blockchain', SELF.backend), mc('parent_hash', P0.header))"
    back = "mc('handle_finality_notification', SELF, upd(P0, header=%s.q.q))" % par
    back = "mc('handle_finality_notification', SELF, has(upd(P0, hash=mc('hash', %s.q.q), header=%s.q.q)))" % (par, par)
    e.must(r + ".backfill", "mc('handle_finality_notification', SELF, chg(P0, header=%s.q.q, hash=mc('hash', %s.q.q)))" % (par, par),
           when="%s + 1 < %s and good(%s) and good(%s.q)" % (best, num, par, par), count=1)
    e.each(r + ".backfill.gap", "mc('handle_finality_notification', ...)", "%s + 1 < %s" % (best, num))
    gap = [t for t in e.ok if any(x.name.split("::")[-1] == "handle_finality_notification" for x in t.fx)]
    e.order(r + ".backfill.first", "mc('handle_finality_notification', ...)", A, traces=gap)
    e.order(r + ".backfill.first", "mc('handle_finality_notification', ...)", Pv, traces=gap)
    # the validator set follows the runtime
    vs = "mc('validator_set', SELF, P0.header)"
    new = "%s.q" % vs
    e.each(r + ".set", "mc('set_validators', SELF.witness_record, %s, alt(mc('xrpl_validator_set', SELF, P0.header).q, op('default', ...)))" % new,
           "(good(call('find_authorities_change', P0.header)) or empty(SELF.validator_set.validators)) and good(%s) and does(mc('set_active_validators', SELF.gossip_validator, %s.validators)) and does(out('self', chg(_, validator_set=%s)))" % (vs, new, new))
    e.must(r + ".set.changed", "mc('set_validators', SELF.witness_record, %s, _)" % new,
           when="good(call('find_authorities_change', P0.header)) and good(%s) and %s.id != SELF.validator_set.id and %s" % (vs, new, newer))
    e.must(r + ".set.first", "mc('set_validators', SELF.witness_record, %s, _)" % new, when=newer,
           unless="(absent(call('find_authorities_change', P0.header)) and nonempty(SELF.validator_set.validators)) or absent(%s) or (%s.id == SELF.validator_set.id and (%s.id != 0 or nonempty(SELF.validator_set.validators)))" % (vs, new, new))
    e.each(r + ".own_key", A, "good(mc('authority_id', SELF.key_store, alt(%s.validators, SELF.validator_set.validators)))" % new)
    e.each(r + ".no_key", Pv, "absent(mc('authority_id', SELF.key_store, alt(%s.validators, SELF.validator_set.validators)))" % new)


@prop("W06")
def proofs_over_rpc(ctx):
    r = "W06"
    RPC = "ethy-gadget-rpc"
    BUILD = ((RPC, "build_event_proof_response"), (RPC, "build_xrpl_tx_proof_response"))
    for fn, chain, build in (("get_event_proof", "Ethereum", "build_event_proof_response"), ("get_xrpl_tx_proof", "Xrpl", "build_xrpl_tx_proof_response")):
        e = ctx.entry(RPC, fn, ty="EthyRpcHandler", opaque=BUILD)
        aux = "mc('get_aux', SELF.client, mc('concat', op('vec', b'ETHY', op('vec', var('%s')), mc('to_be_bytes', P0))))" % chain
        dec = "call('VersionedEventProof::decode', %s.q.q)" % aux
        e.returns(r + "." + fn, "good(call('*%s', _, %s.q))" % (build, dec), when="good(%s) and good(%s.q) and good(%s)" % (aux, aux, dec))
        e.returns(r + "." + fn + ".unknown", "good(none)", when="absent(%s)" % aux)
        e.returns(r + "." + fn + ".unknown", "good(none)", when="good(%s) and absent(%s.q)" % (aux, aux))
        e.returns(r + "." + fn + ".unknown", "good(none)", when="good(%s) and good(%s.q) and absent(%s)" % (aux, aux, dec))
    PR = "vp(P1, 'V1', 0)"
    api = "mc('%s', mc('runtime_api', P0), " + PR + ".block)"
    vals, signers = api % "validator_set", api % "xrpl_signers"
    OP = (("seed-primitives", "expanded_signatures"), ("pallet-ethy", "convert"), ("seed-primitives", "convert"), ("seed-primitives", "authority_index"))
    e = ctx.entry(RPC, BUILD[0][1], ty=None, opaque=OP)
    adr = "op('coll', %s.q.validators, call('EthyEcdsaToEthereum::convert', elem(%s.q.validators)))" % (vals, vals)
    e.returns(r + ".ethereum", "good(struct('EthEventProofResponse', block=%s.block, event_id=%s.event_id, signatures=mc('expanded_signatures', %s, alt(len(%s), len(%s.q.validators))), tag=none, validator_set_id=%s.q.id, validators=%s))"
              % (PR, PR, PR, adr, vals, vals, adr), when="good(%s)" % vals)
    e.returns(r + ".ethereum.no_state", "none", when="absent(%s)" % vals)
    e = ctx.entry(RPC, BUILD[1][1], ty=None, opaque=OP)
    yes = e.giving("good(_)")
    S = PR + ".signatures"
    key = "op('get', %s.q.validators, elem(%s).f0)" % (vals, S)
    is_signer = "mc('authority_index', %s.q, %s.q)" % (signers, key)
    der = "mc('serialize_der', mut('normalize_s', call('*Signature::parse_standard', heads(elem(%s).f1, 64)).q, ...))" % S
    e.returns(r + ".xrpl", "good(struct('XrplEventProofResponse', block=%s.block, event_id=%s.event_id, signatures=alt(op('coll', %s, has(%s)), op('coll', %s, %s, _)), tag=none, validator_set_id=%s.q.id, validators=_))" % (PR, PR, S, der, S, der, signers), traces=yes)
    e.req(r + ".xrpl.state", "good(%s) and good(%s)" % (signers, vals), traces=yes)
    hit = lambda p, v: any(True for _ in match(P(p), v, {}))
    n = 0
    for t in yes:
        for x in subterms(t.val):
            if not (isT(x) and x.op == "coll" and hit(S, x.args[0])):
                continue
            n += 1
            cases = [(x.args[2], x.args[1])] if len(x.args) == 3 else [c.args for c in x.args[1]] if isinstance(x.args[1], tuple) else [((), x.args[1])]
            for facts, v in cases or [((), None)]:
                ok = v is not None and any(True for _ in holds(F("good(%s) and good(%s)" % (key, is_signer)), dict(facts), {}, None)) and hit(der, v)
                ctx.check(r + ".xrpl.signers_only", e.where, ok, "a signature is returned that no current XRPL signer made, or not as a canonical DER signature")
    ctx.check(r + ".xrpl.signers_only", e.where, n, "no list of signatures found")
    e.returns(r + ".xrpl.no_state", "none", when="absent(%s)" % signers)
    e.returns(r + ".xrpl.no_state", "none", when="good(%s) and absent(%s)" % (signers, vals))
    pub = "call('EthyEcdsaToPublicKey::convert', %s.q)" % key
    keys = "mut('push', _, %s)" % pub
    e.returns(r + ".xrpl.keys", "good(struct('XrplEventProofResponse', ..., validators=%s))" % keys, traces=[t for t in e.on("good(%s) and good(%s)" % (key, is_signer)) if t in yes])
    e.returns(r + ".xrpl.no_keys", "good(struct('XrplEventProofResponse', ..., validators=op('default', ...)))", traces=[t for t in e.on("absent(%s) or absent(%s)" % (key, is_signer)) if t in yes])
