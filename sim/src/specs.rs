//! Budgets and the texts of the evidence files.
pub struct Spec {
    pub runs: u64,
    pub level: &'static str,
    pub rule: &'static str,
    pub nontrivial: &'static str,
    pub probes: &'static [&'static str],
    pub assumptions: &'static [&'static str],
}
const BASE: &[&str] = &[
    "exploration is by sampling: schedules, faults and inputs that were not drawn are not covered",
    "threads switch at system calls, lock waits, yields, allocations and the edges of the control flow of the crate under test (not inside its dependencies), and memory is sequentially consistent",
    "the simulated kernel behaves as POSIX allows for regular files; no network or special files",
];
pub fn spec(p: &str) -> Spec {
    let (runs, rule, nontrivial, probes): (u64, &str, &str, &[&str]) = match p {
        "W01" => (
            192000,
            "Generates WAD2/WAD3 files (0..60 textures, odd names, other lump types, gaps, either directory position), whitelists and level counts, loads them 1..3 times in one process with short and interrupted reads under a seeded thread schedule, and compares every texture with an independent byte-level decoder.",
            "the load selects at least two textures",
            &["WAD3 loads", "WAD2 loads", "more than one mip level", "same file loaded again"],
        ),
        "W02" => (
            132000,
            "Loads a WAD, intact or with stored damage and unreadable sectors, under seeded schedules, pool sizes 1..8, hash seeds and clocks, from inside or outside the pool, and compares the complete outcome including error text with a single-threaded fault-free run in a forked process; when the pixels of several textures are unreadable, also with a load while only the first of them is.",
            "the file yields a texture or an error",
            &["damaged files", "called inside the pool", "outcome is an error", "several textures unreadable in the same way"],
        ),
        "W03" => (
            168000,
            "Loads a WAD while opens, reads and seeks fail (EIO, EACCES, EMFILE, unreadable sectors) or the file is cut or unlinked at a seeded system call, then again without failures. The result must be an error or the complete reference; the later load must be complete.",
            "a failure or file change was delivered during a load that selects a texture",
            &["hard fault delivered", "file changed during the load", "complete result despite a failure", "load after recovery"],
        ),
        "W04" => (
            252000,
            "Damages stored WAD bytes (extreme counts, offsets, dimensions, flipped bits, lost sectors, cuts, magic), before or during the load, and requires a normal return, memory requests bounded by 16 MB + 4 x file size, and, on success, exactly the content an unbounded-arithmetic decoder finds.",
            "the file was damaged (always)",
            &["damaged file still well-formed", "damaged file refused", "damage during the load"],
        ),
        "P01" => (
            180000,
            "Reads palette files of many lengths under short, interrupted and failing I/O and compares with the first 768 bytes; converts loaded textures to RGB with and without a supplied palette and compares every pixel of every level with an independent lookup.",
            "a palette was read (always)",
            &["hard fault delivered", "palette too short", "WAD3 conversion", "WAD2 conversion", "conversion without palette refused"],
        ),
        "M01" => (
            96000,
            "Generates configurations and well-formed maps with known entities, groups, layers, typed properties and brushes, loads 1..3 of them per process on changing threads with short and interrupted reads and seeded hash keys, and compares the scene's nodes, order, nesting, origins, types and properties with a model that does not use the code under test.",
            "the expected scene has more than one top-level node",
            &["nested groups", "worldspawn layers", "load on a fresh thread", "same file loaded again"],
        ),
        "M02" => (
            96000,
            "As M01 with geometry: polyhedra are generated corner-first and written as planes; every delivered triangle, surface, collision shape and array is matched against the known faces (coverage by area, corner use, winding, normals, texture, layer, blacklist).",
            "the expected scene has more than one top-level node",
            &["nested groups", "worldspawn layers", "load on a fresh thread", "same file loaded again"],
        ),
        "M03" => (
            168000,
            "Loads a map while opens, reads, seeks and stats fail, sectors are unreadable, the file is missing, disappears or is not text, then again without failures. The result must be an error or the complete reference scene; the later load must be complete.",
            "a failure was delivered",
            &["failure delivered", "complete result despite a failure"],
        ),
        "M04" => (
            252000,
            "Cuts a map at a seeded byte before or during the load. A cut inside an entity must be an error; any accepted scene must be that of the complete entities before the cut.",
            "always",
            &["cut inside an entity", "cut between entities accepted", "accepted while cut during the load"],
        ),
        "M05" => (
            96000,
            "Damages stored map bytes (bits, sectors, lines, words, numbers, class names, planes, group ids), then loads and diffs it; requires a normal return within bounded simulated steps, and for damaged group references every entity exactly once.",
            "the map was damaged (always)",
            &["damaged map loaded", "damaged map refused", "damaged map diffed", "damaged groups loaded", "deep chain of groups"],
        ),
        "M06" => (
            60000,
            "Loads a map, intact or damaged, several times, on several threads, with other loads in between, under seeded hash keys, clocks, schedules and read splits, and compares every bit and the order of the scene (or the error text) with a forked run that uses other hash keys.",
            "the outcome is a scene with content or an error",
            &["damaged map", "another map loaded in between", "load on a fresh thread", "definitions that disagree"],
        ),
        "D01" => (
            384000,
            "Diffs generated file pairs (edits, moves, empty, equal, unrelated) with failing inputs or a failing output stream at a seeded call; parses what reached standard output and compares the added and removed lines with the files.",
            "the files differ",
            &["input failure delivered", "output failure delivered", "a file is not valid text", "a file does not exist"],
        ),
        "F01" => (
            192000,
            "Saves generated game definitions 1..4 times over absent, empty, shorter and longer files while opens and writes fail or are split; success must mean the file holds exactly the rendered text.",
            "always",
            &["hard fault delivered", "save reported an error", "save repeated after the failures stopped", "saved through a symbolic link"],
        ),
        "F02" => (
            336000,
            "Crashes the process or the machine (unsynchronised content and name changes may be lost), or fails a call, at a seeded system call of a save (inside a write: with any prefix written) and inspects the surviving files: the named path must hold the complete old or new text and no other file may change.",
            "always",
            &["process crash delivered", "hard fault delivered", "machine crash delivered"],
        ),
        "S01" => (
            151200,
            "Atomically replaces the WAD, map or palette up to four times at seeded system calls of a load; an accepted result must equal one version that was current at some moment of that load.",
            "a replacement happened during a load",
            &["replacement delivered"],
        ),
        "C01" => (
            54000,
            "Runs 2..4 clients (threads, or tasks of the shared pool) that load WADs, palettes and maps, convert and save at the same time under seeded schedules, with failures confined to one file; every outcome must equal that of the same call run alone in a forked process.",
            "always",
            &["one file failing", "clients inside the pool", "file saved by several clients"],
        ),
        "C02" => (
            180000,
            "Runs mixed calls with failing system calls and checks the simulated kernel's log after each: which files were opened and how, what was changed, created or removed, and that no descriptor is left open.",
            "always",
            &["hard fault delivered", "load checked", "save checked"],
        ),
        "C03" => (
            129600,
            "Runs mixed calls while writes to standard output and standard error fail, are split or interrupted (or the streams are closed, full or broken throughout) and compares the complete outcome with a fault-free forked run.",
            "a stream failure was delivered",
            &["stream failure delivered", "streams broken throughout"],
        ),
        _ => panic!("unknown property {}", p),
    };
    Spec { runs, level: "exploration", rule, nontrivial, probes, assumptions: BASE }
}
