// ---- language.rs, mutation.rs: names ----
//@include lang_spec.vrs
pub open spec fn lang_name(l: Language) -> Seq<char> { match l { Language::Solidity => "Solidity"@, Language::Vyper => "Vyper"@ } }
pub open spec fn mut_name(t: MutationType) -> Seq<char> {
    match t {
        MutationType::Generic(g) => match g {
            GenericMutation::ArithmeticBinaryOp => "ArithmeticBinaryOp"@,
            GenericMutation::LogicalBinaryOp => "LogicalBinaryOp"@,
            GenericMutation::BitwiseBinaryOp => "BitwiseBinaryOp"@,
            GenericMutation::BitshiftBinaryOp => "BitshiftBinaryOp"@,
            GenericMutation::ComparisonBinaryOp => "ComparisonBinaryOp"@,
            GenericMutation::Assignment => "Assignment"@,
            GenericMutation::DeleteStatement => "DeleteStatement"@,
            GenericMutation::FunctionCall => "FunctionCall"@,
            GenericMutation::IfStatement => "IfStatement"@,
            GenericMutation::Integer => "Integer"@,
            GenericMutation::SwapFunctionArguments => "SwapFunctionArguments"@,
            GenericMutation::SwapOperatorArguments => "SwapOperatorArguments"@,
            GenericMutation::SwapLines => "SwapLines"@,
            GenericMutation::UnaryOp => "UnaryOp"@,
        },
        MutationType::Solidity(s) => match s {
            SolidityMutation::Require => "Require"@,
            SolidityMutation::UncheckedBlock => "UncheckedBlock"@,
            SolidityMutation::ElimDelegateCall => "ElimDelegateCall"@,
        },
    }
}
pub open spec fn is_mut_name(s: Seq<char>) -> bool { exists|t: MutationType| #[trigger] mut_name(t) == s }
pub open spec fn is_lang_name(s: Seq<char>) -> bool { s == "Solidity"@ || s == "Vyper"@ }
impl Language {
//@fn mutagenyx_lib/src/language.rs FromStr@Language::from_str props=C09
//@ret r
//@spec
    ensures r is Ok <==> is_lang_name(s@), r is Ok ==> lang_name(r->Ok_0) == s@, // [C09]
//@subst Result<Self, Self::Err> ==> Result<Self, MutagenyxError>
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/language.rs Display@Language::fmt props=C09
//@ret r
//@spec
    ensures final(f)@ == old(f)@ + lang_name(*self), // [C09]
//@subst fmt::Result ==> Result<(), Foreign>
//@subst fmt::Formatter ==> Formatter
//@end
}
impl MutationType {
//@fn mutagenyx_lib/src/mutation.rs FromStr@MutationType::from_str props=C09
//@ret r
//@spec
    ensures r is Ok ==> mut_name(r->Ok_0) == s@, r is Err ==> forall|t: MutationType| #[trigger] mut_name(t) != s@, // [C09]
//@subst Result<Self, Self::Err> ==> Result<Self, MutagenyxError>
//@end
//@fn mutagenyx_lib/src/mutation.rs Display@MutationType::fmt props=C09
//@ret r
//@spec
    ensures final(f)@ == old(f)@ + mut_name(*self), // [C09]
//@subst fmt::Result ==> Result<(), Foreign>
//@end
}
// to_string is what fmt writes (std's blanket implementation)
vx_disp!(Language, s, { lang_name(*s) }, { arbitrary() });
vx_disp!(MutationType, s, { mut_name(*s) }, { arbitrary() });
// a name belongs to one algorithm, to one language
pub proof fn lemma_names() // [C09]
    ensures
        forall|a: MutationType, b: MutationType| #[trigger] mut_name(a) == #[trigger] mut_name(b) ==> a == b, // [C09]
        forall|a: Language, b: Language| #[trigger] lang_name(a) == #[trigger] lang_name(b) ==> a == b, // [C09]
{ lits(); }
