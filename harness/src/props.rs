//! The table of properties.
use crate::driver::Prop;
use crate::*;

const BASE: Prop = Prop {
    id: "",
    rule: "",
    assumptions: &["the reference models of the harness state the language rules correctly"],
    secs: (32, 600),
    workers: 8,
    crash: true,
    stall: 40,
    hang: false,
    case: |_| {},
};

static ALL: &[Prop] = &[
    Prop { id: "P01", rule: "A case is a project of one or more modules whose text is generated well formed, damaged, shuffled or made of random tokens, and every kind of query at many positions. evaluations counts queries; distinct counts distinct sets of diagnostic messages.", hang: true, case: props_front::p01, ..BASE },
    Prop { id: "P02", rule: "A case is a text (as in P01); its highlighting is compared with an independent lexer, and in valid programs with the reference name resolution. distinct counts distinct starts of token kind sequences and program shapes.", case: props_front::p02, hang: true, ..BASE },
    Prop { id: "P03", rule: "A case is a program (valid or damaged) and a random history of queries on one unit; every answer is compared with that of a fresh unit. evaluations counts compared answers; distinct counts distinct sequences of query kinds.", case: props_front::p03, hang: true, ..BASE },
    Prop { id: "P04", rule: "A case is a project (valid, mutated or damaged) and all that can be asked about it: diagnostics, tokens, queries, IR, values and output of every interpreter. The answers are compared with those of fresh units, of threads that start together with shared or own modules and delayed resolvers, and of a new process whose threads race for the first use of the standard modules. evaluations counts compared answers; distinct counts distinct (kind, program shape, number of answers).", case: determinism::p04, hang: true, workers: 4, stall: 120, ..BASE },
    Prop { id: "P05", rule: "A case is a generated valid multi module program; definition and references are asked at every name and at places between names. evaluations counts judged answers; distinct counts distinct (kind of entity, definition or use, shadowed, number of references).", case: props_front::p05, hang: true, ..BASE },
    Prop { id: "P06", rule: "A case is a generated valid program; hover is asked at names and inside expressions. evaluations counts judged answers; distinct counts distinct answers.", case: props_front::p06, hang: true, ..BASE },
    Prop { id: "P07", rule: "A case is a generated valid program; completion is asked at names, also with part of the name typed. evaluations counts judged lists; distinct counts distinct lists.", case: props_front::p07, hang: true, ..BASE },
    Prop { id: "P08", rule: "A case is a program generated well typed, printed in a random layout, which must have no error diagnostic. evaluations counts modules; distinct counts distinct program shapes.", case: props_front::p08, hang: true, ..BASE },
    Prop { id: "P09", rule: "A case is a well typed program after one to three random edits; the reference checker says which definition is the first one at fault. evaluations counts modules; distinct counts distinct (edits, reference verdict, message).", case: props_front::p09, hang: true, ..BASE },
    Prop { id: "P10", rule: "A case is a program with matches after zero to three edits of cases; complaints are compared by position with the reference coverage check. evaluations counts matches; distinct counts distinct (matches, incomplete, unreachable, program shape).", case: props_front::p10, hang: true, ..BASE },
    Prop { id: "P11", rule: "A case is a valid program with unused definitions added; warnings are compared by position with the reference use analysis. evaluations counts modules; distinct counts distinct (warnings, definitions, program shape).", case: props_front::p11, hang: true, ..BASE },
    Prop { id: "P12", rule: "A case is a multi module program after edits of exports, imports and qualified names, or with resolver failures injected. evaluations counts modules; distinct counts distinct (edits, reference verdict, message).", case: props_front::p12, hang: true, ..BASE },
    Prop { id: "P13", rule: "A case is an accepted program, generated or mutated; code is generated with IR verification, optimized and not, and run on every interpreter. evaluations counts compilations and runs; distinct counts distinct program shapes.", hang: true, case: props_sem::p13, ..BASE },
    Prop { id: "P14", rule: "A case is an accepted program run by the reference interpreter and by every runner, plus inputs for main. evaluations counts compared runs; distinct counts distinct program shapes.", hang: true, case: props_sem::p14, ..BASE },
    Prop { id: "P15", rule: "A case is an accepted program run on all interpreters, optimized and not. evaluations counts compared runs; distinct counts distinct program shapes.", case: props_sem::p15, hang: true, ..BASE },
    Prop { id: "P16", rule: "A case is an accepted program compiled with and without optimization, IR verified, and run. evaluations counts compared runs; distinct counts distinct (program shape, ratio of IR sizes).", case: props_sem::p16, hang: true, ..BASE },
    Prop { id: "P17", rule: "A case is a generated program whose tokens were disturbed (or a text as in P01), read by an independent parser and judged by the reference checker; texts that stay valid are also run. evaluations counts judged texts and runs; distinct counts distinct (offending token, message) and program shapes.", case: props_sem::p17, hang: true, ..BASE },
    Prop { id: "P18", rule: "A case is an accepted program and a meaning preserving variant of it. evaluations counts compared runs; distinct counts distinct program shapes.", case: props_sem::p18, hang: true, ..BASE },
    Prop { id: "P19", rule: "A case is an accepted program whose emitted IR, optimized and not, is read back by an independent parser, compared with the IR in memory, evaluated, and compared with what running the program gives. evaluations counts texts read and comparisons; distinct counts distinct (program shape, optimized, size).", case: irprops::p19, hang: true, ..BASE },
    Prop { id: "P20", rule: "A case is a program of 6 to 15 random compositions of standard functions on edge case arguments; results in every interpreter, optimized and not, are compared with native models. evaluations counts results compared; distinct counts distinct (function, result).", case: stdlib::p20, hang: true, ..BASE },
    Prop { id: "P21", rule: "A case is a program run in the bytecode interpreter with collections forced between instructions and before allocations, the heap made to grow and move, and free space overwritten; the reachable graph is compared before and after each collection, and results with those of another interpreter. evaluations counts watched runs; distinct counts distinct (program shape, collections, reachable objects).", case: backend::p21, hang: true, ..BASE },
    Prop { id: "P22", rule: "A case is a looping program run with few and with many steps; stack height and bytes allocated are compared. evaluations counts runs; distinct counts distinct (kind of loop, optimized, stack height, memory).", case: backend::p22, hang: true, ..BASE },
    Prop { id: "P23", rule: "A case is 30 programs (60 in the thorough tier) compiled to machine code and run in a process whose memory has guard pages; results are compared with those of the bytecode interpreter. evaluations counts programs; distinct counts distinct (instructions, blocks of memory, size of the result).", case: jit::p23, stall: 200, ..BASE },
    Prop { id: "P24", rule: "A case is a program of 8 to 29 primitive operations on literal and hidden edge case operands and a main run on arbitrary bytes; results are compared with native ones. evaluations counts operations executed; distinct counts distinct results.", case: backend::p24, hang: true, ..BASE },
    Prop { id: "P25", rule: "A case is the IR of an accepted program and 60 random edits of it, judged by an independent checker of the IR and by the validator. evaluations counts judged programs; distinct counts distinct (edit, reason).", case: irprops::p25, hang: true, ..BASE },
    Prop { id: "P26", rule: "A case is a language server process that opens texts with characters of one to four bytes; diagnostics and answers at random places (also inside surrogate pairs and past ends of lines) are compared with the library through an independent conversion of positions. evaluations counts compared answers; distinct counts distinct answers.", case: lsp::p26, workers: 8, ..BASE },
    Prop { id: "P27", rule: "A case is a language server process and a history of edits, requests (also unknown ones, and about files that are not open) and notifications, with damaged texts. evaluations counts requests with exactly one response; distinct counts distinct histories.", case: lsp::p27, ..BASE },
    Prop { id: "P28", rule: "A case is a language server process and a history of opening, changing and closing the files of a project, some of them only on disk or missing; after every step the last published diagnostics of every open file are compared with those of its current text. evaluations counts compared files; distinct counts distinct (step, counts of diagnostics).", case: lsp::p28, ..BASE },
    Prop { id: "P29", rule: "A case is a language server process and a history of edits of the files of a project; answers are compared with the library on the current texts. evaluations counts compared answers; distinct counts distinct answers.", case: lsp::p29, ..BASE },
    Prop { id: "P30", rule: "A case is a project in files and four runs of the command line compiler with random modes, flags, inputs and outputs, or with faults of its surroundings; exit code, streams and files are compared with what the library says. evaluations counts runs; distinct counts distinct (mode, output, program shape).", case: cli::p30, ..BASE },
    Prop { id: "P31", rule: "A case is a project spread over directories with imports spelled in different ways, links, cycles, missing and broken modules, started from different directories; diagnostics and values are compared with a model of the resolution. evaluations counts runs; distinct counts distinct (fault, diagnostics, program shape).", case: cli::p31, ..BASE },
    Prop { id: "P32", rule: "A case is 20 random sequences of tokens, line breaks and nested nodes given to the formatter; the text is compared with a model of the layout. evaluations counts sequences; distinct counts distinct (indentation, spaces) of lines.", case: layout::p32, ..BASE },
    Prop { id: "P33", rule: "A case is a run of up to 40 programs (300 in the thorough tier) in the bytecode interpreter, with collections forced, under Miri. evaluations counts programs; distinct counts distinct (instructions, collections, result sizes).", case: ub::p33, stall: 420, secs: (2, 420), ..BASE },
    Prop { id: "P34", rule: "A case is a program after one to eight edits of names, scopes, imports and types; all complaints about scopes, kinds and imports of the first module with errors (and those before it) are compared with the reference, by place and rule. evaluations counts modules; distinct counts distinct (rules, number of errors, definitions).", case: props_front::p34, hang: true, ..BASE },
    Prop { id: "P35", rule: "A case is a program in which the expressions of one to six definitions of a module were edited; every definition that is wrong by itself must have an error and every other one must not, unless it uses one of those whose inferred type changed. evaluations counts judged definitions; distinct counts distinct (wrong, right, edits).", case: props_front::p35, hang: true, ..BASE },
    Prop { id: "P36", rule: "A case is a text with a syntax error (a program cut off at a token, with a token inserted, replaced or moved, or any text); what the complaint about the first one says was found and fits is compared with an independent parser that tries every kind of token there. evaluations counts texts; distinct counts distinct (what fits, what was found).", case: syntax::p36, ..BASE },
    Prop { id: "P37", rule: "A case is a text, often broken, followed by two different texts; all errors, tokens and answers about places in it (12 places, four kinds of questions each) are compared. evaluations counts texts; distinct counts distinct answers.", case: metamorph::p37, ..BASE },
    Prop { id: "P38", rule: "A case is a text, often broken, alone and with comments, white space and definitions of other names before it; all diagnostics, tokens and answers about places in it (12 places, four kinds of questions each) are compared after moving the places. evaluations counts texts; distinct counts distinct answers.", case: metamorph::p38, ..BASE },
    Prop { id: "P39", rule: "A case is a random tree built with the syntax builder (up to six levels, with empty nodes and empty tokens, text of one to four byte characters, placed at several origins), read back through the cursors: kinds, ids, spans, texts, children, both walks from the root, walks that are stopped, and a copy; compared with a model. evaluations counts trees; distinct counts distinct shapes.", case: tree::p39, secs: (10, 120), ..BASE },
    Prop { id: "P40", rule: "A case is a program with one to eight edits of matches, scopes and types; names and numbers in every complaint are compared with those of the reference for the error at that place. evaluations counts modules; distinct counts distinct lists of errors.", case: messages::p40, ..BASE },
    Prop { id: "P41", rule: "A case is a program that is large in one way (constructors, fields, parameters, captures, locals, definitions, imports, modules, lengths of names, strings, comments and so on, up to 1100 and 140 thousand bytes); its values in every interpreter, errors, warnings, tokens, definitions and references are compared with those that follow from how it was made. evaluations counts compared runs and answers; distinct counts distinct (kind, size, complaints).", case: scale::p41, hang: true, ..BASE },
];

pub fn all() -> &'static [Prop] {
    ALL
}

pub fn find(id: &str) -> Option<&'static Prop> {
    ALL.iter().find(|p| p.id == id)
}
