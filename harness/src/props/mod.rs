use crate::engine::Space;

pub mod c24;
mod codec;
pub mod decode;
pub mod race;
mod around;
mod envp;
mod diag;
mod hs;
mod mem;
pub mod seq;
mod sink;
mod value;
mod structs;
#[cfg(feature = "win")]
mod winp;

/// COMPUTERNAME unless a space says otherwise
pub const WORKSTATION: &str = "WKS01";

pub const IDS: &[&str] = &[
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21",
    "C22", "C23", "C24", "C25", "C26", "C28", "C29", "C30", "C31", "C32",
];

pub fn spaces(id: &str, deep: bool) -> Option<Vec<Space>> {
    Some(match id {
        "C01" => decode::c01(deep),
        "C02" => decode::c02(deep),
        "C03" => codec::c03(deep),
        "C04" => codec::c04(deep),
        "C05" => decode::c05(deep),
        "C06" => decode::c06(deep),
        "C07" => codec::c07(deep),
        "C08" => structs::c08(deep),
        "C09" => structs::c09(deep),
        "C10" => structs::c10(deep),
        "C11" => hs::c11(deep),
        "C12" => hs::c12(deep),
        "C13" => hs::c13(deep),
        "C14" => hs::c14(deep),
        "C15" => hs::c15(deep),
        "C16" => seq::c16(deep),
        "C17" => seq::c17(deep),
        "C18" => hs::c18(deep),
        "C19" => hs::c19(deep),
        "C20" => seq::c20(deep),
        "C21" => envp::c21(deep),
        "C22" => hs::c22(deep),
        "C23" => envp::c23(deep),
        "C24" => c24::c24(deep),
        "C25" => structs::c25(deep),
        #[cfg(feature = "win")]
        "C27" => winp::c27(deep),
        #[cfg(feature = "win")]
        "C33" => winp::c33(deep),
        "C29" => diag::c29(deep),
        "C30" => sink::c30(deep),
        "C31" => value::c31(deep),
        "C32" => around::c32(deep),
        "C28" => mem::c28(deep),
        "C26" => seq::c26(deep),
        _ => return None,
    })
}

pub fn rule(id: &str) -> &'static str {
    match id {
        "C01" => "every byte string, deviation of a well-formed message, descriptor value and list of attribute pairs of the named spaces is handed to the real decoders, from a buffer that ends at an unmapped page; a state is a distinct input of a decoder",
        "C02" => "every payload order, gap, overlap and descriptor value of the named spaces is laid out by the reference encoder and decoded by the real code; a state is a distinct decoded message",
        "C16" | "C17" => "every sequence of calls of the named length over the alphabet is executed on a real client next to the reference handshake automaton; a state is a distinct automaton state with its message content",
        "C20" => "every stream byte of the random source takes every value, and every bounded sequence of short, interrupted, empty and failed reads is answered, while a real client runs; a state is a distinct message",
        "C24" => "every element of the spaces is decoded by a strict and a default build of the real code; a state is a distinct decoded input",
        "C26" => "every merge of the calls of the clients, with every assignment of the calls to threads, and every preemption at a request to the operating system inside of a call, is executed on real clients; in the instrumented build also every schedule with a bounded number of preemptions at atomic operations and accesses to static memory that is written, each in a process of its own; a state is the vector of the clients' progress with the messages sent so far",
        "C27" => "every sequence of answers of the system over the named alphabet is given to the real Windows client by stand-ins for the SSPI calls; a state is a distinct step with the answer given and the context known",
        "C33" => "every sequence of answers of the system over the named alphabet is given to the real Windows client by stand-ins for the SSPI calls, which keep account of what they gave and got back; a state is a distinct account after a step",
        "C28" => "every input of the named spaces is decoded or encoded, and every short sequence of calls repeated, by the real code under an allocator that counts; a state is a distinct input, or a distinct sequence with the memory held",
        "C29" => "every sequence of calls of the named length is executed on a real client for each level, CHALLENGE and password of the spaces, with all output captured; a state is a distinct set of outputs and messages",
        "C32" => "every program of the named sets (handshakes, decodings with re-encoding, lists filled from the environment) is executed in each of the surroundings, at each log level, and compared with the same program in plain surroundings without logging; a state is a distinct result",
        "C30" => "every sequence of answers of a destination, and a fault at each of its requests, is given to the real encoders; a state is a distinct value with the bytes that arrived",
        _ => "every element of the named finite spaces is executed on the real code and compared with the reference model; a state is a distinct model value reached",
    }
}

pub fn assumptions(id: &str) -> &'static [&'static str] {
    match id {
        "C26" => &[
            "inside of a call, another client is scheduled where the call asks the operating system for something, makes an atomic operation or touches static memory that is written; memory is sequentially consistent; plain accesses to heap memory that two clients share are not points by themselves",
            "the random source, the clock and /etc/hostname are stand-ins at the libc boundary",
        ],
        "C27" | "C33" => &[
            "the windows crate declares the system calls as the system has them; the stand-ins answer as SSPI is documented to",
            "src/win.rs is compiled for this platform, not for Windows",
        ],
        "C01" | "C02" | "C05" | "C06" | "C24" => &["the bounds of the spaces; bytes outside of the alphabets are covered by the single-byte deviations only"],
        "C08" | "C09" | "C10" | "C25" | "C03" | "C04" | "C07" => &["values outside of the alphabets behave like those in them"],
        _ => &[
            "MD4, MD5, HMAC and DES of the RustCrypto crates are right (the composition is checked against the examples of MS-NLMP)",
            "the random source, the clock and /etc/hostname are stand-ins at the libc boundary",
        ],
    }
}
