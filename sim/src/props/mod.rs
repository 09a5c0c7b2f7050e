//! One scenario per property. A scenario is a pure function of its two tapes and the code under test.
use crate::exec::R;
use crate::io::World;
use crate::tape::Tape;

pub mod anyproto;
pub mod conc;
pub mod elem;
pub mod hostile;
pub mod malformed;
pub mod reads;
pub mod rpc;
pub mod writes;

pub struct Ctx {
    /// workload tape
    pub w: Tape,
    pub world: World,
}

pub type Scenario = fn(&mut Ctx) -> R<()>;

pub struct Prop {
    pub id: &'static str,
    pub run: Scenario,
    /// simulated runs of the quick tier
    pub quick: u64,
    pub real: &'static str,
    pub stub: &'static str,
    pub rule: &'static str,
}

pub const REAL: &str = "all of parquet-format-safe that the property reaches (generated readers/writers, compact protocols, varint codecs, error conversion), futures' io combinators, std's read_exact/write_all/read_to_end";
pub const STUB: &str = "transports (SimReader/SimWriter), waker/executor, clock and timers, global allocator's verdicts";

pub fn props() -> Vec<Prop> {
    let p = |id, run, quick, rule| Prop { id, run, quick, real: REAL, stub: STUB, rule };
    vec![
        p("C01", writes::c01 as Scenario, 20000, "1-3 generated values written and read back through drawn writer/reader pairs and transport schedules"),
        p("C02", writes::c02, 9000, "generated values written by all three writers under drawn schedules, decoded by the independent decoder"),
        p("C03", reads::c03, 15000, "generated values encoded by the independent encoder in drawn legal forms, read under drawn schedules"),
        p("C04", writes::c04, 80000, "value and element writes whose returned counts are compared with the bytes the sink accepted"),
        p("C05", reads::c05, 120000, "blocking reads and writes with EINTR bursts, compared with the uninterrupted run"),
        p("C06", writes::c06, 25000, "value and element writes into a sink that fails or fills up at a drawn byte"),
        p("C07", reads::c07, 150000, "streams cut at drawn bytes (all cuts of short streams), read by value or by element"),
        p("C08", reads::c08, 14000, "reads over a transport that fails at a drawn byte with a drawn error kind"),
        p("C09", hostile::c09, 150000, "corrupted, hostile and random streams read by all readers under drawn limits and schedules"),
        p("C10", hostile::c10, 25000, "hostile declared sizes and injected allocation failures with the heap accounted"),
        p("C11", hostile::c11, 400000, "valid streams read under limits around the reference model's cumulative charges"),
        p("C12", reads::c12, 10000, "valid, corrupted and hostile streams read by every reader under different schedules and compared"),
        p("C13", reads::c13, 50000, "back-to-back values, messages, element programs, lists and skipped content, and payload, read through one or several readers, with seeks"),
        p("C14", reads::c14, 400000, "unknown fields of drawn types and nesting injected anywhere in valid streams"),
        p("C15", reads::c15, 800000, "fields of valid streams lost, repeated or replaced, compared with the reference reading"),
        p("C16", conc::c16, 5000, "2-6 sessions interleaved on tasks, parked threads and nested transports, compared with solo runs"),
        p("C17", conc::c17, 130000, "asynchronous value, element, skip and flush operations under stalls, spurious polls, thread migration and cancellation"),
        p("C18", writes::c18, 350000, "values and flushes onto a write-back cached sink that crashes at a drawn event"),
        p("C19", elem::c19, 50000, "well-nested element programs written and read back element by element and by the independent decoder"),
        p("C20", elem::c20, 1000000, "varint streams of all widths, valid, overlong and torn"),
        p("C21", hostile::c21, 24000, "endless peers of drawn shapes read under drawn limits"),
        p("C22", elem::c22, 800000, "application errors exchanged over drawn schedules, with lost, extra and torn parts"),
        p("C25", rpc::c25, 50000, "1-3 callers and a server exchanging messages over a network that loses, duplicates, delays, misroutes and alters them"),
        p("C26", malformed::c26, 400000, "valid streams, messages and application errors with one malformed element"),
        p("C27", anyproto::c27, 1000000, "values, lists, element programs, skipped content and application errors through simulated protocols that record, serve, stall, lie and fail at drawn calls"),
    ]
}
