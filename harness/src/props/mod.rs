use crate::ctx::{Ctx, Res};
mod changeset;
mod inspect;
mod memory;
mod named;
mod pbf;
mod pipeline;
mod text;
mod threads;
mod tool;
mod write;

pub struct Prop {
    pub id: &'static str,
    /// runs of the quick tier
    pub quick: u64,
    pub thorough: u64,
    pub run: fn(&Ctx) -> Res,
    pub rule: &'static str,
    pub real: &'static str,
    pub stub: &'static str,
}

const SRC: &str = "byte sources (simulated reader: segmentation, interruptions, errors, ends, stalls), files under /simfs (interposed open/read/close), random bytes (getrandom)";
const SINK: &str = "byte sinks (simulated writer: short writes, interruptions, errors, full disk, zero writes, failing flush), random bytes (getrandom)";

pub fn all() -> Vec<Prop> {
    let p = |id, quick, run: fn(&Ctx) -> Res, rule, real, stub| Prop { id, quick, thorough: quick * 30, run, rule, real, stub };
    vec![
        p("C01", 60_000, pbf::c01, "a generated PBF file read through stringpbf::PBFReader under a drawn delivery plan", "stringpbf reader, protobuf, flate2, std BufReader/File", SRC),
        p("C02", 50_000, pbf::c02, "a generated PBF file read through arcpbf::PBFReader under a drawn delivery plan; objects converted, cloned and edited", "arcpbf reader, arc and string objects, protobuf, flate2", SRC),
        p("C03", 60_000, pbf::c03, "a generated PBF file read through PBFNodePositionReader under a drawn delivery plan", "node position reader, protobuf, flate2", SRC),
        p("C04", 60_000, pbf::c04, "a generated PBF file whose source fails or ends at a drawn byte, read by one of the three readers", "all three PBF readers", SRC),
        p("C05", 60_000, pbf::c05, "a generated PBF file with one damaged or unsupported block, read by one of the three readers", "all three PBF readers, flate2", SRC),
        p("C06", 60_000, pbf::c06, "a generated PBF file arriving block by block, read by a chain of readers which hand the source over", "all three PBF readers", SRC),
        p("C07", 50_000, pbf::c07, "a generated file of any format and a drawn sequence of partial typed and untyped iterations", "PBF, XML and OSC readers, typed iterators", SRC),
        p("C08", 60_000, text::c08, "a generated OSM XML document (plain or bzip2) under a drawn delivery plan", "XMLReader, xml-rs, bzip2", SRC),
        p("C09", 60_000, text::c09, "a generated OSC document under a drawn delivery plan", "OSCReader, xml-rs", SRC),
        p("C10", 60_000, text::c10, "a generated OSM XML or OSC document whose source fails, ends or is damaged at a drawn place, or which has an unusable id", "XMLReader, OSCReader, xml-rs, bzip2", SRC),
        p("C11", 60_000, text::c11, "a generated document arriving piece by piece and stalling right after drawn elements", "XMLReader, OSCReader, ChangesetReader, xml-rs, quick-xml", SRC),
        p("C12", 60_000, write::c12, "generated objects and headers written as OSM XML into a sink with a drawn plan", "XMLWriter, XMLReader", SINK),
        p("C13", 60_000, write::c13, "generated objects written as OSC into a sink with a drawn plan", "OSCWriter, OSCReader", SINK),
        p("C14", 160_000, write::c14, "generated objects written into a sink which fails at drawn places, compared with a perfect twin", "XMLWriter, OSCWriter, std BufWriter", SINK),
        p("C15", 80_000, write::c15, "a drawn sequence of life cycle calls on a writer", "XMLWriter, OSCWriter", SINK),
        p("C16", 60_000, changeset::c16, "a generated changeset dump (plain or bzip2) under a drawn delivery plan", "ChangesetReader, quick-xml, bzip2", SRC),
        p("C17", 60_000, changeset::c17, "a generated changeset dump whose source fails, is cut or damaged at a drawn place", "ChangesetReader, ChangesetTagReader, quick-xml, bzip2", SRC),
        p("C18", 40_000, changeset::c18, "a generated changeset dump file read by both changeset readers under drawn delivery plans", "ChangesetTagReader, ChangesetReader, quick-xml, bzip2", SRC),
        p("C19", 5_000, tool::c19, "the real tool run as a process on a generated dump under a drawn fault plan, then recovery", "the tool's whole binary, SQLite, kernel file system", "system calls of the tool (LD_PRELOAD: read, write, pread, pwrite, fsync, fdatasync, ftruncate, unlink, getrandom, clock), process death, power loss (files rebuilt from the recorded writes)"),
        p("C20", 12_000, threads::c20, "2 to 5 tasks (readers, writers, consumers of shared objects) interleaved at every I/O operation by the simulator", "all readers and writers on real threads", "thread scheduling (one token, the tape decides), byte sources and sinks"),
        p("C21", 40_000, pipeline::c21, "a conversion with edits from any format to OSM XML or OSC, with cuts of the output", "all readers and writers, object setters", SINK),
        p("C26", 20_000, named::c26, "a drawn history of opening, reading, closing, replacing and removing files by name", "every constructor that takes a file name, all readers", SRC),
        p("C25", 12_000, inspect::c25, "one of the two inspection tools run as a process on a generated file under a drawn fault plan", "the whole binaries of both tools, kernel file system", "system calls of the tool (LD_PRELOAD: open, read, write to its output, getrandom, clock), process death"),
        p("C24", 4_000, memory::c24, "a long input or output of repeated units, or a small file with stored bytes changed anywhere, with the memory held by the library measured", "all readers and writers, protobuf, flate2, xml-rs, quick-xml, bzip2", SRC),
    ]
}
