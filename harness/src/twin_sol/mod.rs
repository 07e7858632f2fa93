//! C25: the text printed for a Solidity tree, against the executable twin of the spelling specification.
#[allow(unused_variables, dead_code)]
mod gen;
mod rt;
use crate::pp::Page;
use crate::util::*;
use mutagenyx_lib::pretty_printer::*;
use mutagenyx_lib::{Language, LanguageInterface, SuperAST};
use rand::Rng;
use rt::*;
use serde_json::{json, Value};

const KINDS: &str = "
ArrayTypeName baseType:T length:~E
Assignment leftHandSide:E operator:|=|+=|-=|*=|/=|%=|^=|&=|<<=|>>= rightHandSide:E
BinaryOperation leftExpression:E operator:|+|-|*|/|%|**|&|^|<<|>>|<|>|<=|>=|==|!=|&& rightExpression:E
BinaryOperation.2 leftExpression:E operator:'| rightExpression:E
BinaryOperation.3 leftExpression:E operator:'|| rightExpression:E
Block statements:*S
UncheckedBlock statements:*S
Break
Comment text:t
Comment.2 text:' value:W
Conditional condition:E trueExpression:E falseExpression:E
Continue
ContractDefinition abstract:b baseContracts:*C contractKind:|contract|interface|library documentation:~Doc name:n nodes:*M
DoWhileStatement body:B condition:E
ElementaryTypeName name:|uint256|bytes|bool|string|uint8
ElementaryTypeName.2 name:'address stateMutability:|payable|nonpayable
ElementaryTypeNameExpression isPure:b typeName:Z
EmitStatement eventCall:Call
EnumDefinition documentation:~Doc name:n members:*EnumV
EnumValue name:n
IdentifierPath name:n
YulIdentifier name:n
YulTypedName name:n
ErrorDefinition documentation:~Doc name:n parameters:Params
EventDefinition documentation:~Doc name:n parameters:Params anonymous:b
ExpressionStatement expression:E
ForStatement initializationExpression:~I condition:~E loopExpression:~L body:Body
FunctionCall expression:E arguments:*E names:*n kind:|functionCall|typeConversion|structConstructorCall
FunctionCall.2 expression:E arguments:2E names:2n kind:|functionCall|structConstructorCall
FunctionCallOptions expression:E names:+n options:+E
FunctionDefinition documentation:~Doc kind:|function|function|freeFunction|constructor|receive|fallback name:n parameters:Params visibility:|public|external|internal|private virtual:b stateMutability:|payable|nonpayable|view|pure overrides:~Over modifiers:*Mod returnParameters:Params body:~B implemented:b
FunctionTypeName parameterTypes:Params returnParameterTypes:Params visibility:|internal|external stateMutability:|nonpayable|view|pure|payable
Identifier name:n
IfStatement condition:E trueBody:Body falseBody:~Body
ImportDirective symbolAliases:*Alias file:n unitAlias:~n
ImportDirective.2 symbolAliases:+Alias file:n unitAlias:'
IndexAccess baseExpression:E indexExpression:~E
IndexRangeAccess baseExpression:E startExpression:~E endExpression:~E
InheritanceSpecifier baseName:Path arguments:~*E
InlineAssembly documentation:~t AST:YB flags:~*|memory-safe|odd
Literal kind:|number|bool value:n subdenomination:~|wei|ether|days
Literal.2 kind:|string|unicodeString value:~s hexValue:n
Literal.3 kind:'hexString value:~s hexValue:n
Mapping.2 keyType:T keyName:' valueType:T valueName:'
Mapping keyType:T keyName:~n valueType:T valueName:~n
MemberAccess expression:E memberName:n
ModifierDefinition documentation:~Doc name:n parameters:Params virtual:b overrides:~Over body:~B
ModifierInvocation modifierName:Path arguments:~*E
NewExpression typeName:T
OverrideSpecifier overrides:*Path
ParameterList parameters:*V
PlaceholderStatement
PragmaDirective literals:*|solidity|^|>=|<|0.8|.13|0.5|.0|abicoder|v2|=
Return expression:~E
RevertStatement errorCall:Call
SourceUnit license:~n nodes:*P
StructDefinition documentation:~Doc name:n members:+V
StructuredDocumentation text:t
TryCatchClause errorName:|Error|Panic| parameters:~Params block:B
TryStatement externalCall:Call clauses:+Clause
TupleExpression isInlineArray:b components:*?E
UnaryOperation prefix:b operator:|-|!|~|++|--|delete subExpression:E
UserDefinedTypeName pathNode:~Path name:~n
UserDefinedValueTypeDefinition name:n underlyingType:T
UsingForDirective libraryName:Path typeName:~T global:~b
UsingForDirective.2 functionList:+Used typeName:~T global:~b
VariableDeclaration documentation:~Doc typeName:~T visibility:|internal|internal|public|private constant:b indexed:~b overrides:~Over mutability:|mutable|mutable|immutable|constant storageLocation:|default|memory|storage|calldata name:n value:~E
VariableDeclaration.2 typeName:T visibility:'internal constant:b storageLocation:|default|memory|storage|calldata name:'
VariableDeclarationStatement declarations:+?V initialValue:~E
WhileStatement condition:E body:B
YulAssignment variableNames:+Yid value:YE
YulBlock statements:*YS
YulBreak
YulCase value:YE body:YB
YulCase.2 value:'default body:YB
YulContinue
YulExpressionStatement expression:YE
YulForLoop pre:YB condition:YE post:YB body:YB
YulFunctionCall functionName:Yid arguments:*YE
YulFunctionDefinition name:n parameters:*YT returnVariables:*YT body:YB
YulIf condition:YE body:YB
YulLeave
YulLiteral kind:|number|bool value:n
YulLiteral.2 kind:'string value:~s hexValue:n
YulSwitch expression:YE cases:+YC
YulVariableDeclaration variables:+YT value:~YE
Foreign foreign:Id local:~n
Used1 function:Path
Used2 definition:Path operator:|+|-|==
";
const CATS: &str = "
E Identifier Literal Literal.2 Literal.3 Assignment BinaryOperation BinaryOperation BinaryOperation BinaryOperation BinaryOperation.2 BinaryOperation.3 Conditional ElementaryTypeNameExpression FunctionCall FunctionCall.2 FunctionCallOptions IndexAccess IndexRangeAccess MemberAccess NewExpression TupleExpression UnaryOperation UnaryOperation
Call FunctionCall FunctionCall.2
T ElementaryTypeName ElementaryTypeName.2 ArrayTypeName Mapping Mapping.2 UserDefinedTypeName FunctionTypeName
Z ElementaryTypeName ElementaryTypeName.2
V VariableDeclaration.2 VariableDeclaration.2 VariableDeclaration
Params ParameterList
Doc StructuredDocumentation
Over OverrideSpecifier
Mod ModifierInvocation
Path IdentifierPath
C InheritanceSpecifier
Id Identifier
EnumV EnumValue
Alias Foreign
Used Used1 Used2
Clause TryCatchClause
B Block Block UncheckedBlock
Body Break Continue Block Block ExpressionStatement Return IfStatement ForStatement
L ExpressionStatement
I ExpressionStatement VariableDeclarationStatement
S Break Continue PlaceholderStatement Comment Comment.2 Block UncheckedBlock DoWhileStatement EmitStatement ExpressionStatement ExpressionStatement ForStatement IfStatement InlineAssembly Return RevertStatement TryStatement VariableDeclarationStatement VariableDeclarationStatement WhileStatement
W Break Continue ExpressionStatement IfStatement Return VariableDeclarationStatement
M VariableDeclaration EnumDefinition ErrorDefinition EventDefinition FunctionDefinition FunctionDefinition ModifierDefinition StructDefinition UsingForDirective UsingForDirective.2 UserDefinedValueTypeDefinition Comment
P PragmaDirective ImportDirective ImportDirective.2 ContractDefinition ContractDefinition ContractDefinition StructDefinition EnumDefinition ErrorDefinition FunctionDefinition UsingForDirective UserDefinedValueTypeDefinition Comment VariableDeclaration
YB YulBlock
YE YulIdentifier YulLiteral YulLiteral.2 YulFunctionCall
YS YulBreak YulContinue YulLeave YulAssignment YulBlock YulExpressionStatement YulForLoop YulFunctionDefinition YulIf YulSwitch YulVariableDeclaration
YC YulCase YulCase.2
YT YulTypedName
Yid YulIdentifier
";

/// The compiler's promises the printers rely on: a value for each name.
fn tidy(v: &mut Value) {
    match v {
        Value::Array(a) => a.iter_mut().for_each(tidy),
        Value::Object(o) => {
            for k in ["arguments", "options"] {
                let n = o.get("names").and_then(|x| x.as_array()).map(|x| x.len());
                if let (Some(n), Some(Value::Array(d))) = (n, o.get_mut(k)) {
                    if n > 0 {
                        while d.len() < n {
                            d.push(json!({"nodeType": "Identifier", "name": "x"}));
                        }
                        d.truncate(n);
                    }
                }
            }
            o.values_mut().for_each(tidy)
        }
        _ => {}
    }
}

fn real(n: &Value, page: usize, ind: usize) -> (String, usize, usize) {
    let mut o = LanguageInterface::get_language_object_for_language(&Language::Solidity).unwrap();
    let mut p = PrettyPrinter::new(4, page);
    for _ in 0..ind {
        p.increase_indent();
    }
    let mut b: Vec<u8> = vec![];
    o.pretty_print_ast_to_stream(&SuperAST::Solidity(n.clone()), &mut b, &mut p).unwrap();
    (String::from_utf8_lossy(&b).into_owned(), p.column, p.indent)
}
fn ink(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace() && !"/*".contains(*c)).collect()
}

/// a random tree that leaves out nothing the compiler would write
pub fn tree(r: &mut rand_pcg::Pcg64, d: u32) -> Value {
    let mut sc = crate::schema::Schema::new("nodeType", KINDS, CATS);
    sc.gaps = false;
    let mut t = sc.kind(r, "SourceUnit", d);
    tidy(&mut t);
    t
}

pub fn run(cx: &mut Cx) {
    if !cx.wants(&["C25"]) {
        return;
    }
    let sc = crate::schema::Schema::new("nodeType", KINDS, CATS);
    let n = if cx.thorough { 60_000 } else { 12_000 };
    for it in 0..n {
        let k = if it % 3 == 0 { "SourceUnit" } else { sc.kinds[cx.rng.gen_range(0, sc.kinds.len())].0 };
        let d = 1 + (it % 4) as u32;
        let mut t = sc.kind(&mut cx.rng, k, d);
        tidy(&mut t);
        let c = Cfg { semi: true, single: false, nonpay: false };
        let page = *[1_000_000usize, 1_000_000, 150, 100, 60][..].get(cx.rng.gen_range(0, 5)).unwrap();
        let ind = if page > 1000 { cx.rng.gen_range(0, 3) } else { 0 };
        let input = json!({"language": "solidity", "tree": t, "page": page, "indent": ind});
        cx.case(&format!("spelling {}", k), &input);
        let got = match cx.guarded("C25", "spelling", &input, || real(&t, page, ind)) {
            Ok(x) => x,
            Err(e) => {
                cx.fail("C25", "spelling", &format!("printing fails: {}", e), input);
                continue;
            }
        };
        let mut g = Page::new(4, page);
        g.inc(ind);
        let w = pr(St(g), JV(&t), c).0;
        let ok = if page > 1000 { got.0 == w.out && got.1 == w.col && got.2 == w.ind } else { ink(&got.0) == ink(&w.out) };
        if !ok {
            cx.fail("C25", "spelling", &format!("printed {:?}, the tree spells {:?}", got.0, w.out), input);
        }
    }
}
