//! Signatures of the standard modules, written down by hand.
pub struct StdType {
    pub name: &'static str,
    pub params: &'static [&'static str],
    pub export_ctors: bool,
    pub ctors: &'static [(&'static str, &'static [&'static str])],
}

pub struct StdModule {
    pub types: &'static [StdType],
    pub values: &'static [(&'static str, &'static str)],
}

pub const TYPE_HOMES: &[(&str, &str)] = &[
    ("Option", "std/option"),
    ("Result", "std/result"),
    ("List", "std/list"),
    ("ParseErr", "std/int"),
    ("Array", "std/array"),
];

pub const PATHS: &[&str] = &["std/intrinsics", "std/option", "std/result", "std/list", "std/string", "std/int", "std/array"];

pub fn module(path: &str) -> Option<StdModule> {
    Some(match path {
        "std/intrinsics" => StdModule {
            types: &[],
            values: &[
                ("iterate", "int -> (a -> a) -> a -> a"),
                ("stringLength", "string -> int"),
                ("stringConcat", "string -> string -> string"),
                ("stringCharAt", "int -> string -> int"),
                ("stringSubstring", "int -> int -> string -> string"),
                ("stringFromChar", "int -> string"),
                ("intToString", "int -> string"),
            ],
        },
        "std/option" => StdModule {
            types: &[StdType { name: "Option", params: &["a"], export_ctors: true, ctors: &[("None", &[]), ("Some", &["a"])] }],
            values: &[
                ("map", "(a -> b) -> Option a -> Option b"),
                ("andThen", "(a -> Option b) -> Option a -> Option b"),
                ("flatten", "Option (Option a) -> Option a"),
                ("unwrapOr", "a -> Option a -> a"),
                ("apply", "Option a -> Option (a -> b) -> Option b"),
                ("isSome", "Option a -> bool"),
                ("isNone", "Option a -> bool"),
            ],
        },
        "std/result" => StdModule {
            types: &[StdType { name: "Result", params: &["t", "e"], export_ctors: true, ctors: &[("Ok", &["t"]), ("Err", &["e"])] }],
            values: &[
                ("map", "(a -> b) -> Result a e -> Result b e"),
                ("mapErr", "(a -> b) -> Result t a -> Result t b"),
                ("andThen", "(a -> Result b e) -> Result a e -> Result b e"),
                ("flatten", "Result (Result a e) e -> Result a e"),
                ("unwrapOr", "a -> Result a e -> a"),
                ("ok", "Result a e -> Option a"),
                ("err", "Result a e -> Option e"),
                ("okOr", "e -> Option a -> Result a e"),
                ("apply", "Result a e -> Result (a -> b) e -> Result b e"),
                ("join", "Result a a -> a"),
            ],
        },
        "std/list" => StdModule {
            types: &[StdType { name: "List", params: &["a"], export_ctors: true, ctors: &[("Nil", &[]), ("Cons", &["a", "rec"])] }],
            values: &[
                ("map", "(a -> b) -> List a -> List b"),
                ("filter", "(a -> bool) -> List a -> List a"),
                ("sum", "List int -> int"),
                ("product", "List int -> int"),
                ("any", "List bool -> bool"),
                ("all", "List bool -> bool"),
                ("head", "List a -> Option a"),
                ("tail", "List a -> Option (List a)"),
                ("reverse", "List a -> List a"),
                ("max", "List int -> Option int"),
                ("min", "List int -> Option int"),
                ("maxBy", "(a -> a -> bool) -> List a -> Option a"),
                ("minBy", "(a -> a -> bool) -> List a -> Option a"),
                ("allSome", "List (Option a) -> Option (List a)"),
                ("allOk", "List (Result a e) -> Result (List a) e"),
                ("skip", "int -> List a -> List a"),
                ("take", "int -> List a -> List a"),
                ("length", "List a -> int"),
                ("foldr", "(a -> b -> b) -> b -> List a -> b"),
                ("foldl", "b -> (b -> a -> b) -> List a -> b"),
                ("repeat", "int -> a -> List a"),
                ("filterMap", "(a -> Option b) -> List a -> List b"),
                ("concat", "List a -> List a -> List a"),
                ("sortBy", "(a -> a -> bool) -> List a -> List a"),
                ("join", "string -> List string -> string"),
                ("range", "int -> int -> List int"),
                ("zip", "(a -> b -> c) -> List a -> List b -> List c"),
                ("flatMap", "(a -> List b) -> List a -> List b"),
                ("flatten", "List (List a) -> List a"),
            ],
        },
        "std/string" => StdModule {
            types: &[],
            values: &[
                ("length", "string -> int"),
                ("concat", "string -> string -> string"),
                ("charAt", "int -> string -> int"),
                ("substring", "int -> int -> string -> string"),
                ("fromChar", "int -> string"),
                ("split", "int -> string -> List string"),
                ("lines", "string -> List string"),
                ("foldChars", "a -> (a -> int -> a) -> string -> a"),
                ("equal", "string -> string -> bool"),
                ("startsWith", "string -> string -> bool"),
                ("chars", "string -> List int"),
                ("trim", "string -> string"),
                ("newline", "string"),
            ],
        },
        "std/int" => StdModule {
            types: &[StdType { name: "ParseErr", params: &[], export_ctors: true, ctors: &[("ParseErr", &[])] }],
            values: &[
                ("iterate", "int -> (a -> a) -> a -> a"),
                ("toString", "int -> string"),
                ("parse", "string -> Result int ParseErr"),
                ("min", "int -> int -> int"),
                ("max", "int -> int -> int"),
                ("gcd", "int -> int -> int"),
                ("lcm", "int -> int -> int"),
                ("bitXor", "int -> int -> int"),
                ("bitAnd", "int -> int -> int"),
                ("bitOr", "int -> int -> int"),
            ],
        },
        "std/array" => StdModule {
            types: &[StdType { name: "Array", params: &["a"], export_ctors: false, ctors: &[] }],
            values: &[
                ("length", "Array a -> int"),
                ("empty", "Array a"),
                ("new", "int -> a -> Array a"),
                ("mapIdx", "int -> (a -> a) -> Array a -> Array a"),
                ("get", "int -> Array a -> Option a"),
                ("set", "int -> a -> Array a -> Array a"),
                ("toList", "Array a -> List a"),
                ("fromList", "List a -> Array a"),
                ("truncate", "int -> Array a -> Array a"),
            ],
        },
        _ => return None,
    })
}

pub fn sig_tokens(s: &str) -> Vec<String> {
    let s = s.replace('(', " ( ").replace(')', " ) ");
    s.split_whitespace().map(|x| x.to_owned()).collect()
}
