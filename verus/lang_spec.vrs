//@item mutagenyx_lib/src/language.rs Language |#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@item mutagenyx_lib/src/super_ast.rs SuperAST
pub open spec fn sast(s: SuperAST) -> JV { match s { SuperAST::Solidity(v) => v@, SuperAST::Vyper(v) => v@ } }
pub open spec fn has_lang(l: Language, s: SuperAST) -> bool { match l { Language::Solidity => s is Solidity, Language::Vyper => s is Vyper } }
