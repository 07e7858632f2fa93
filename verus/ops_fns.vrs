// ---- operator families (mutagenyx_lib/src/operators.rs) ----
pub open spec fn in2(s: Seq<char>, a: &str, b: &str) -> bool { s == a@ || s == b@ }
pub open spec fn in3(s: Seq<char>, a: &str, b: &str, c: &str) -> bool { s == a@ || s == b@ || s == c@ }
pub open spec fn arith(s: Seq<char>) -> bool { in3(s, "+", "-", "*") || in3(s, "/", "%", "**") }
pub open spec fn logic(s: Seq<char>) -> bool { in2(s, "&&", "||") }
pub open spec fn bitw(s: Seq<char>) -> bool { in3(s, "&", "|", "^") }
pub open spec fn bshift(s: Seq<char>) -> bool { in2(s, "<<", ">>") }
pub open spec fn compar(s: Seq<char>) -> bool { in3(s, "==", "!=", ">") || in3(s, "<", ">=", "<=") }
pub open spec fn pre_un(s: Seq<char>) -> bool { in3(s, "++", "--", "~") }
pub open spec fn post_un(s: Seq<char>) -> bool { in2(s, "++", "--") }
pub open spec fn noncomm(s: Seq<char>) -> bool { in3(s, "-", "/", "%") || in3(s, "**", ">", "<") || in3(s, "<=", ">=", "<<") || s == ">>"@ }
// v lists exactly the operators of the family
pub open spec fn lists(v: Seq<&'static str>, fam: spec_fn(Seq<char>) -> bool) -> bool { forall|s: Seq<char>| #[trigger] has_str(v, s) <==> fam(s) }
// v offers an operator other than s
pub open spec fn offers(v: Seq<&'static str>, s: Seq<char>) -> bool { exists|i: int| 0 <= i < v.len() && (#[trigger] v[i])@ != s }
pub proof fn fam_offers(v: Seq<&'static str>, f: spec_fn(Seq<char>) -> bool, a: Seq<char>, b: Seq<char>)
    requires lists(v, f), f(a), f(b), a != b,
    ensures v.len() > 0, forall|s: Seq<char>| #[trigger] offers(v, s),
{
    assert(has_str(v, a)); assert(has_str(v, b));
    let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i])@ == a;
    let j = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i])@ == b;
    assert forall|s: Seq<char>| #[trigger] offers(v, s) by { assert(v[i]@ != s || v[j]@ != s); }
}
//@fn mutagenyx_lib/src/operators.rs arithmetic_operators props=C04
//@ret r
//@spec
    ensures lists(r@, |s: Seq<char>| arith(s)),
//@end
//@fn mutagenyx_lib/src/operators.rs logical_operators props=C04
//@ret r
//@spec
    ensures lists(r@, |s: Seq<char>| logic(s)),
//@end
//@fn mutagenyx_lib/src/operators.rs bitwise_operators props=C04
//@ret r
//@spec
    ensures lists(r@, |s: Seq<char>| bitw(s)),
//@end
//@fn mutagenyx_lib/src/operators.rs bitshift_operators props=C04
//@ret r
//@spec
    ensures lists(r@, |s: Seq<char>| bshift(s)),
//@end
//@fn mutagenyx_lib/src/operators.rs comparison_operators props=C04
//@ret r
//@spec
    ensures lists(r@, |s: Seq<char>| compar(s)),
//@end
//@fn mutagenyx_lib/src/operators.rs prefix_operators props=C04
//@ret r
//@spec
    ensures lists(r@, |s: Seq<char>| pre_un(s)),
//@end
//@fn mutagenyx_lib/src/operators.rs postfix_operators props=C04
//@ret r
//@spec
    ensures lists(r@, |s: Seq<char>| post_un(s)),
//@end
//@fn mutagenyx_lib/src/operators.rs non_commutative_operators props=C10
//@ret r
//@spec
    ensures lists(r@, |s: Seq<char>| noncomm(s)),
//@end
