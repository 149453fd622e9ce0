"""the writer of the proof file (C13)"""
import clause
import u_lit
from unit import Unit

RLIMIT = 60

BUF = r"""
/// stand-in for BufWriter<File>: what has been handed over for the file, and whether every further write succeeds
pub struct BufWriter { pub verif_data: Vec<u8> }
pub struct WriteError { }
impl BufWriter {
    pub uninterp spec fn bytes(&self) -> Seq<u8>;
    pub uninterp spec fn healthy(&self) -> bool;
    #[verifier::external_body]
    pub fn write_all(&mut self, s: &[u8]) -> (r: Result<(), WriteError>)
        ensures r.is_ok() ==> final(self).bytes() == old(self).bytes() + s@, old(self).healthy() ==> r.is_ok() && final(self).healthy()
    { unimplemented!() }
}
/// the decimal numeral of x followed by a blank
pub uninterp spec fn dec_sp(x: i32) -> Seq<u8>;
#[verifier::external_body]
pub fn verif_dec_sp(x: i32) -> (r: Vec<u8>) ensures r@ == dec_sp(x) { unimplemented!() }
pub assume_specification [<i32>::unsigned_abs] (x: i32) -> (r: u32) ensures r == (if x < 0 { -x } else { x as int });
"""
SPEC = r"""
// ---- the text of the proof
pub open spec fn nums(s: Seq<Lit>) -> Seq<i32> { Seq::new(s.len(), |i: int| s[i].num() as i32) }
pub open spec fn body_text(s: Seq<i32>) -> Seq<u8> decreases s.len() { if s.len() == 0 { Seq::empty() } else { body_text(s.drop_last()) + dec_sp(s.last()) } }
/// "d " for a deletion, the numerals, and the terminator 0 with a line end
pub open spec fn head_text(del: bool) -> Seq<u8> { if del { seq![100u8, 32u8] } else { Seq::empty() } }
pub open spec fn line_text(del: bool, s: Seq<i32>) -> Seq<u8> { head_text(del) + body_text(s) + seq![48u8, 10u8] }
pub open spec fn iabs(x: int) -> int { if x < 0 { -x } else { x } }
/// the queue is a sequence of records: length (negative: deletion), then that many numbers
pub open spec fn q_ok(q: Seq<i32>) -> bool decreases q.len() {
    q.len() == 0 || { let n = iabs(q[0] as int); q[0] > i32::MIN && 1 + n <= q.len() && q_ok(q.skip(1 + n)) }
}
pub open spec fn q_text(q: Seq<i32>) -> Seq<u8> decreases q.len() {
    let n = iabs(q[0] as int);
    if q.len() == 0 || 1 + n > q.len() { Seq::empty() } else { line_text(q[0] < 0, q.subrange(1, 1 + n)) + q_text(q.skip(1 + n)) }
}
pub proof fn lem_q_append(q: Seq<i32>, del: bool, s: Seq<i32>)
    requires q_ok(q), s.len() < 0x8000_0000, !del || s.len() > 0
    ensures q_ok(q + (seq![(if del { -s.len() } else { s.len() as int }) as i32] + s)), q_text(q + (seq![(if del { -s.len() } else { s.len() as int }) as i32] + s)) == q_text(q) + line_text(del, s)
    decreases q.len()
{
    let rec = seq![(if del { -s.len() } else { s.len() as int }) as i32] + s;
    let r = q + rec;
    if q.len() == 0 {
        assert(r =~= rec);
        assert(rec.subrange(1, 1 + s.len() as int) =~= s);
        assert(rec.skip(1 + s.len() as int) =~= Seq::<i32>::empty());
        assert(q_text(rec.skip(1 + s.len() as int)) =~= Seq::<u8>::empty());
        assert(q_text(q) + line_text(del, s) =~= line_text(del, s)); assert(q_ok(rec.skip(1 + s.len() as int))); assert(iabs(rec[0] as int) == s.len()); assert(rec[0] > i32::MIN); assert(q_ok(rec)); assert((rec[0] < 0) == del); assert(q_text(rec) == line_text(del, s) + q_text(rec.skip(1 + s.len() as int)));
        assert(line_text(del, s) + Seq::<u8>::empty() =~= line_text(del, s));
    } else {
        let n = iabs(q[0] as int);
        lem_q_append(q.skip(1 + n), del, s);
        assert(r.skip(1 + n) =~= q.skip(1 + n) + rec);
        assert(r.subrange(1, 1 + n) =~= q.subrange(1, 1 + n));
        assert(line_text(q[0] < 0, q.subrange(1, 1 + n)) + (q_text(q.skip(1 + n)) + line_text(del, s)) =~= (line_text(q[0] < 0, q.subrange(1, 1 + n)) + q_text(q.skip(1 + n))) + line_text(del, s));
    }
}
pub proof fn lem_body_step(q: Seq<i32>, i0: int, k: int) requires 0 <= i0 < k < q.len()
    ensures body_text(q.subrange(i0 + 1, k + 1)) == body_text(q.subrange(i0 + 1, k)) + dec_sp(q[k]) {
    assert(q.subrange(i0 + 1, k + 1).drop_last() =~= q.subrange(i0 + 1, k));
}
impl CertificationStore {
    pub open spec fn wf(&self) -> bool { q_ok(self.queue@) }
    pub open spec fn active(&self) -> bool { self.buffer.is_some() }
    /// everything the file will hold once the queue is written
    pub open spec fn out(&self) -> Seq<u8> { self.buffer.unwrap().bytes() + q_text(self.queue@) }
    pub open spec fn healthy(&self) -> bool { self.buffer.is_some() && self.buffer.unwrap().healthy() }
    /// one more step of the proof: the text grows by exactly the line of that step (or writing has failed and is given up)
    pub open spec fn logged(&self, o: CertificationStore, del: bool, s: Seq<Lit>) -> bool {
        &&& self.wf()
        &&& self.active() ==> o.active() && self.out() == o.out() + line_text(del, nums(s))
        &&& o.healthy() ==> self.healthy()
        &&& !o.active() ==> !self.active()
    }
}
"""
M = "cdb::unsat_certificate"
I = "impl CertificationStore"
FMT = r':: alloc :: __export :: must_use ( { :: alloc :: fmt :: format ( format_args ! ( "{0} " , $$e ) ) } ) . as_bytes ( )'


def types(u):
    u.assume(BUF, "BufWriter<File> is a stand-in: a successful write_all appends exactly the given bytes; format!(\"{} \", x) gives the decimal numeral of x and a blank; i32::unsigned_abs is the absolute value")
    u.struct("cdb::unsat_certificate", "CertificationStore", keep=["queue", "buffer"], types={"buffer": "Option<BufWriter>"})
    u.text(SPEC)


def fns(u):
    f = u.fn
    u.const(M, None, "DUMP_INTERVAL")
    f(M, I, "is_active", into="CertificationStore", spec="ensures r == self.active()")
    f(M, I, "dump_to_file", into="CertificationStore",
      subst=[(FMT, '& verif_dec_sp ( $$e )')],
      spec="requires old(self).wf(), ensures final(self).wf(), final(self).active() ==> final(self).queue@.len() == 0, final(self).active() ==> old(self).active() && final(self).out() == old(self).out(), old(self).healthy() ==> final(self).healthy(), !old(self).active() ==> !final(self).active()",
      lateset=True, nloops=2, pre="let ghost out0 = self.out(); let ghost q0 = self.queue@; let ghost h0 = self.healthy(); let ghost act0 = self.active();",
      ghost=[("before", "if let Some ( ref mut buf ) = self . buffer", "proof { assert(q0.skip(0) =~= q0); }"),
             ("after_stmt", "let l = self . queue [ index ]", "let ghost i0 = index as int; let ghost n = iabs(l as int); let ghost b0 = buf.bytes(); let ghost qi = q0.skip(i0); proof { assert(qi.len() > 0); assert(qi[0] == l); }"),
             ("after_stmt", "self . queue . clear ( )", "proof { assert(q_text(self.queue@) =~= Seq::<u8>::empty()); if self.buffer.is_some() { assert(self.out() =~= self.buffer.unwrap().bytes()); } }"),
             ("after_stmt", "index += 1", "proof { lem_body_step(q0, i0, index as int); }"),
             ("after_stmt", "index += 1", "proof { assert(qi.subrange(1, 1 + n) =~= q0.subrange(i0 + 1, i0 + 1 + n)); assert(qi.skip(1 + n) =~= q0.skip(index as int)); "
              "assert(buf.bytes() + q_text(q0.skip(index as int)) =~= b0 + (line_text(l < 0, q0.subrange(i0 + 1, i0 + 1 + n)) + q_text(q0.skip(index as int)))); }", 1)],
      loops={0: {"inv": "invariant_except_break 0 <= index <= q0.len(), buf.bytes() + q_text(q0.skip(index as int)) == out0, q_ok(q0.skip(index as int)), h0 ==> buf.healthy(), verif_exit == 0, invariant self.queue@ == q0, q_ok(q0), act0, h0 == old(self).healthy(), act0 == old(self).active(), "
                "ensures verif_exit <= 3, verif_exit != 0 ==> !h0, verif_exit == 0 ==> index == q0.len() && buf.bytes() =~= out0 && (h0 ==> buf.healthy()), decreases self.queue@.len() - index"},
             1: {"it": "it", "inv": "invariant verif_exit == 0, it.iter.end == n, q_ok(q0), act0, h0 == old(self).healthy(), act0 == old(self).active(), i0 >= 0, i0 + n < q0.len(), n <= i32::MAX, self.queue@.len() <= usize::MAX, self.queue@ == q0, index == i0 + it.index(), buf.bytes() =~= b0 + head_text(l < 0) + body_text(q0.subrange(i0 + 1, index + 1)), h0 ==> buf.healthy(),"}})

    for nm, d, sub in (("add_clause", "false", []), ("delete_clause", "true", [("( $$e ) . neg ( )", "( - ( $$e ) )", 1)])):
        rec = "seq![(if %s { -nums(clause@).len() } else { nums(clause@).len() as int }) as i32]" % d
        f(M, I, nm, into="CertificationStore", subst=sub,
          spec="requires old(self).wf(), clause@.len() < 0x8000_0000, forall|i: int| 0 <= i < clause@.len() ==> (#[trigger] clause@[i]).wf()" + (", clause@.len() > 0" if d == "true" else "") + ", ensures final(self).logged(*old(self), %s, clause@)" % d,
          pre="let ghost q0 = self.queue@; let ghost o0 = self.out(); let ghost s = nums(clause@); proof { assert(s.len() == clause@.len()); lem_q_append(q0, %s, s); }" % d,
          nloops=1, loops={0: {"it": "it", "inv": "invariant it.index() <= clause@.len(), s == nums(clause@), self.queue@ =~= q0 + (%s + s.take(it.index() as int)), self.buffer == old(self).buffer, forall|i: int| 0 <= i < clause@.len() ==> (#[trigger] clause@[i]).wf()," % rec,
                               "after": "proof { assert(s.take(s.len() as int) =~= s); assert(self.queue@ =~= q0 + (%s + s)); if self.active() { assert(self.out() =~= o0 + line_text(%s, s)); } }" % (rec, d)}})
    f(M, I, "close", into="CertificationStore", 
      drop=[("self . target = None ;", "", "the path of the file is not modelled")],
      spec="requires old(self).wf(), ensures !final(self).active()", pre="let ghost o0 = self.out(); let ghost h0 = self.healthy();",
      ghost=[("before", "self . buffer = None", "proof { if h0 { assert(buf.bytes() =~= o0 + seq![48u8, 10u8]); } }")])


def unit():
    u = Unit("cert")
    u_lit.base(u)
    types(u)
    fns(u)
    return u
