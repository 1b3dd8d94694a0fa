#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the statements stay readable)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
                   **({'state':[dict(name=n,meaning=m,where=w) for n,m,w in state]} if state else {}),
                   **({'observe_at':observe} if observe else {}),hook_needed=hook)))
WAD=["src/wad/mod.rs","src/wad/header.rs","src/wad/entry.rs","src/wad/mip_texture.rs","src/wad/mip_level.rs","src/wad/palette.rs"]
MAP=["src/lib.rs","src/map/quake/tokenizer.rs","src/map/quake/parser.rs","src/map/quake/types/brush_plane.rs"]
NOTEST="The 18 existing tests only format FGD text and one colour; no test opens a file, starts a thread or reads a map or WAD."
p("W01","WAD loads are exact under every reader schedule and legal I/O behaviour",
 "Loading a well-formed WAD2 or WAD3 file returns exactly the textures of its directory (limited to the requested names, if any are given, matched exactly), in directory order, each with its own lower-cased name, dimensions, pixel bytes for every requested mip level (1 to 4, and no other level) and, for WAD3 only, its own palette. This holds for every interleaving of the worker threads, every worker count, and every legal kernel behaviour (short reads, interrupted calls, slow reads, clock jumps), and also when a file is rewritten between loads in the same process.",
 ["schedules","inputs","histories","fault_sequences"],"every well-formed WAD, whitelist, mip count, worker count, thread interleaving and pattern of short or interrupted reads; any sequence of rewrites and loads in one process",
 NOTEST+" The decode is spread over a thread pool, so the result depends on schedules and on how reads are chunked.",
 WAD,[("parallel pixel reads zipped back to the directory by index","src/wad/mod.rs read_mip_data / read_textures"),("exact-length reads","src/wad/mod.rs read_exact calls"),("directory filter","src/wad/mod.rs read_directory")],
 observe=["wad::read_textures result"])
p("W02","A WAD load's outcome does not depend on the thread schedule, errors included",
 "For a given WAD file on a given (possibly damaged or partly unreadable) disk and given arguments, the outcome of a load, the textures or the exact error reported, is the same for every worker count, thread interleaving, hash seed and clock behaviour. When the pixel data of several textures cannot be read, which of them is reported does not depend on timing: the error is always that of the first of them in directory order.",
 ["schedules","configurations","fault_sequences"],"every interleaving and worker count, over files with any set of persistently unreadable or out-of-range regions",
 NOTEST+" Racing workers could report whichever failure happened first; only a controlled scheduler can compare schedules.",
 WAD,[("results collected in index order and scanned for the first error","src/wad/mod.rs read_mip_data")],observe=["wad::read_textures result and error text under two schedules"])
p("W03","A WAD load is all or nothing under I/O failure",
 "If any open, seek or read that a WAD load depends on fails, or the file shrinks or disappears while it is being read, the load returns an error or the complete correct result: never a successful result with missing, truncated, zero-filled or foreign data, never a panic or a hang. Once the failures stop, the next load of the same file in the same process succeeds completely.",
 ["fault_sequences","schedules","crash_points"],"every placement and combination of failing, short and interrupted system calls and of concurrent truncation or deletion, in every interleaving",
 NOTEST+" No test makes a system call fail.",WAD,[("error propagation out of the worker closures","src/wad/mod.rs read_header, read_directory, read_mip_textures, read_mip_data")],observe=["wad::read_textures result"])
p("W04","Damaged WAD bytes are contained",
 "Whatever bytes a WAD file holds (flipped bits, torn or zeroed sectors, truncation, an unsupported or garbage header), loading it terminates with either an error or exactly the content those bytes describe: no panic, abort, arithmetic overflow or hang, and no memory demand out of proportion to the size of the file.",
 ["inputs","fault_sequences"],"every corruption of stored bytes, before or during the load, under every schedule",
 NOTEST,WAD,[("length, offset and count arithmetic on fields read from the file","src/wad/mod.rs"),("magic check","src/wad/mod.rs read_textures")],observe=["wad::read_textures result, process exit, allocation requests"])
p("P01","Palette loads and RGB conversion are exact or fail",
 "Reading a palette file yields the 256 RGB triples of its first 768 bytes under every legal I/O behaviour; a palette that is shorter or cannot be read is an error. Converting a loaded texture to RGB maps every pixel of every loaded mip level through the texture's own palette if it has one (WAD3), otherwise through the supplied palette (WAD2), and is an error if there is neither; levels that were not loaded stay absent.",
 ["inputs","fault_sequences","schedules"],"every palette file length and content, every I/O fault placement, every texture loaded under every schedule",
 NOTEST,["src/wad/palette.rs","src/wad/mip_data.rs","src/wad/mod.rs"],[("whole-file read then fixed-count parse","src/wad/palette.rs read_palette"),("palette choice","src/wad/mod.rs TextureIndexed::into_rgb")],observe=["wad::palette::read_palette result","TextureIndexed::into_rgb result"])
p("M01","Every map entity appears exactly once, in place, with typed properties",
 "A successful map load, whatever the read sizes, interruptions, hash seeds and number of loads before it or beside it, yields worldspawn first, then the non-empty configured worldspawn layers in configured order, then every entity that belongs to no group in the map in file order, with each grouped entity nested once under its group, in file order. Every entity's node carries its class name, its origin relative to its parent (the origin key, or the average of its brush centres), the configured entity type, script component and property mode, and each defined property with its declared type, taken from the map when it parses and otherwise the declared default. Nothing is lost, duplicated or taken from another entity, another file or an earlier load.",
 ["inputs","histories","fault_sequences","schedules"],"every well-formed map and configuration, every chunking of the reads, every hash seed, sequences of different loads in one process",
 NOTEST,MAP+["src/scene_tree/mod.rs","src/layer_filter/mod.rs","src/geo_builder/entity/mod.rs"],[("line tokenizer and scope parser","src/map/quake/tokenizer.rs, parser.rs"),("group nesting and typed properties","src/scene_tree/mod.rs build_entity, get_entity_properties")],
 observe=["run result"])
p("M02","Every visible brush face and solid is delivered exactly once",
 "A successful map load, under every legal I/O behaviour and hash seed, delivers each brush face exactly once as triangles over that face's own corner points, in the surface of its (lower-cased) texture, or the untextured surface if the texture is unknown, unless the face's texture or the whole brush is blacklisted; worldspawn brushes made wholly of a configured layer texture go to that layer and nowhere else. Surfaces have per-vertex arrays of equal length and in-range indices, and face normals agree with the triangles' winding (corners in clockwise order seen from outside, the map format's convention). Convex collision has one shape per brush with exactly its corner points about the brush centre, and concave collision covers every face of the entity once.",
 ["inputs","fault_sequences","histories"],"every well-formed map of convex brushes, blacklist, texture set and layer configuration, under every chunking, hash seed and prior load",
 NOTEST+" Whether a face is lost or delivered twice depends on the whole map and on hash iteration order.",["src/geo_builder/brush_plane/mod.rs","src/geo_builder/brush_plane/vertices.rs","src/geo_builder/brush/mod.rs","src/layer_filter/mod.rs","src/scene_tree/mod.rs","src/scene_tree/predicates/texture.rs","src/scene_tree/predicates/vertex.rs"],
 [("plane intersection, winding and fan","src/geo_builder/brush_plane/mod.rs"),("layer partition","src/layer_filter/mod.rs"),("surface gathering and index remapping","src/scene_tree/mod.rs gather_entity_geometry, filter_vertices")],observe=["run result"])
p("M03","A map load is all or nothing under I/O failure",
 "If opening or reading the map file fails at any point, or the file disappears or is not valid text, the load returns an error or the complete correct scene: never a scene built from part of the file, never a panic or hang. Once the failures stop, the next load in the same process succeeds with the complete scene.",
 ["fault_sequences","crash_points"],"every placement of failing, short and interrupted system calls and concurrent deletion",
 NOTEST,MAP,[("whole-file read before tokenizing","src/lib.rs run")],observe=["run result"])
p("M04","A map cut off inside an entity is rejected",
 "A map file that a crash or full disk cut off at any byte, before or while it is read, is never accepted as if it were complete when the cut leaves an entity or brush open: the load returns an error. When the cut falls between entities, a successful load contains exactly the complete entities before the cut.",
 ["crash_points","inputs"],"every map and every byte position at which its writer stopped, combined with every legal chunking of the reads",
 NOTEST,MAP,[("scope tracking","src/map/quake/parser.rs run")],observe=["run result"])
p("M05","A damaged map never crashes or hangs the process",
 "Whatever bytes a map file holds (flipped bits, torn or zeroed sectors, lost or duplicated lines, malformed numbers, missing class names, degenerate planes, dangling or circular group references), loading it, or diffing it, terminates with a result or an error: no panic, abort, stack exhaustion or hang (groups nested absurdly deep may be refused). A circular, duplicate or dangling group reference neither drops nor duplicates an entity.",
 ["inputs","fault_sequences"],"every corruption of a stored map file",
 NOTEST,MAP+["src/layer_filter/mod.rs","src/scene_tree/mod.rs","src/geo_builder/brush_plane/vertices.rs"],[("error returns instead of unwrap on file content","src/map/quake/types/brush_plane.rs, src/map/quake/parser.rs, src/layer_filter/mod.rs"),("group resolution","src/scene_tree/mod.rs")],observe=["run result","run_diff result","process exit"])
p("M06","Loading the same map twice gives the same scene",
 "Loading the same map with the same configuration always gives the same scene tree, including the order of all nodes, surfaces and vertices, in every thread and process: the outcome does not depend on hash seeds, clocks, how reads are split or what was loaded before. When the load fails, the same error is reported each time.",
 ["schedules","histories","configurations"],"every hash seed, thread, clock behaviour, read chunking and preceding history",
 NOTEST+" Hash iteration order differs per process and per thread, so one run cannot show it.",["src/lib.rs","src/layer_filter/mod.rs","src/scene_tree/mod.rs","src/map/quake/parser.rs"],[("ordered layer list","src/layer_filter/mod.rs"),("insertion-ordered entity list","src/map/quake/parser.rs")],observe=["canonical rendering of run results"])
p("D01","A map diff is complete and correct, or an error",
 "Diffing two readable map files prints, once and completely, a difference that reports as added every line that occurs only in the second file, as removed every line that occurs only in the first, never a line absent from the respective file, and nothing at all for files with equal lines (empty files included). If either file cannot be read or is not valid UTF-8 text, or the output cannot be written completely (a closed standard output counts as written, as for every Rust program), the call returns an error; it never panics and never prints a difference computed from part of a file.",
 ["inputs","fault_sequences"],"every pair of files, every fault placement on the input files and on the output stream",
 NOTEST,["src/lib.rs","src/map/quake/tokenizer.rs"],[("longest common subsequence over tokens","src/map/quake/tokenizer.rs diff_tokens"),("both files read completely first","src/lib.rs run_diff")],observe=["bytes written to standard output","run_diff result"])
p("F01","A reported FGD save means the complete text is in the file",
 "When saving game definitions returns success, the named file contains exactly the rendered text, no more and no less, whatever it held before and however the writes were split or interrupted; if creating or writing the file fails, the save returns an error and does not panic. An existing file keeps its access permissions, and a symbolic link stays in place while the file it points to receives the text. A later save to the same path succeeds completely once the failures stop.",
 ["fault_sequences","inputs","histories"],"every game definition, previous file content and placement of failing, short and interrupted system calls, over sequences of saves",
 NOTEST,["src/game_data/forge/game_data.rs"],[("write everything before the rename, errors propagated","src/game_data/forge/game_data.rs save")],observe=["file content in the simulated file system","save result"])
p("F02","An interrupted FGD save does not destroy the previous definitions",
 "A save that is cut short, by a crash of the process or of the machine at any system call (a machine crash loses what was not synchronised), a full disk or a write error, leaves at the named path (or at the file a symbolic link there points to) either the complete previous text or the complete new text, never an empty, partial or mixed file, and changes no other file.",
 ["crash_points","fault_sequences"],"every crash point and failing write during a save",
 NOTEST,["src/game_data/forge/game_data.rs"],[("written to a temporary file, synchronised, renamed over the target","src/game_data/forge/game_data.rs save")],observe=["file content in the simulated file system after the crash"])
p("S01","A load never mixes two versions of a file",
 "If another process atomically replaces an input file (map, WAD, palette) while it is being loaded, the load returns the complete content of one version that was current at some moment of the load, or an error, never a mixture of versions.",
 ["schedules","histories"],"every moment at which the file is replaced, any number of times, relative to every system call of every worker",
 NOTEST,WAD+["src/lib.rs"],[("one shared handle per load","src/wad/mod.rs read_textures"),("single whole-file read","src/lib.rs run, src/wad/palette.rs")],observe=["load results"])
p("C01","Concurrent loads and saves do not affect each other",
 "When several threads of one process load WADs, palettes and maps and save definitions at the same time, over the same or different files, from inside or outside the shared thread pool, every call returns exactly what it returns when run alone, and all of them finish. A call that fails because its own file is unreadable does not change the outcome of any other call. Several saves to one path at the same time leave the complete text of one of them and nothing else.",
 ["schedules","histories","fault_sequences"],"every interleaving of any set of concurrent calls, with failures confined to some of the files",
 NOTEST,["src/lib.rs","src/wad/mod.rs","src/wad/palette.rs","src/game_data/forge/game_data.rs"],[("no shared mutable state between calls","src/lib.rs, src/wad/mod.rs")],observe=["result of every call"])
p("C02","Calls touch only the files they are given and release every handle",
 "Loading and diffing open only the named files, only for reading, and never create, modify, rename or delete anything; saving creates or changes only the named file (any temporary file it used is gone when it returns, unless removing that file failed). When a call returns, successfully or with an error at any point, every file handle it opened has been released.",
 ["fault_sequences","schedules","histories"],"every call, in every interleaving and with a failure at every system call",
 NOTEST,["src/lib.rs","src/wad/mod.rs","src/wad/palette.rs","src/game_data/forge/game_data.rs"],[("read-only opens and scoped handles","src/wad/mod.rs, src/lib.rs")],observe=["system-call log and descriptor table of the simulated kernel"])
p("C03","Failing diagnostic output never affects a result",
 "The progress messages that loads and conversions print are not part of their result: if standard output or standard error is closed, full, broken or interrupted at any point, every load, conversion and save still returns exactly the result it would otherwise return, without panicking or hanging.",
 ["fault_sequences","schedules"],"every placement of failures on the output streams, in every interleaving",
 NOTEST,["src/lib.rs","src/wad/mod.rs","src/scene_tree/mod.rs","src/map/quake/parser.rs","src/map/quake/tokenizer.rs"],[("diagnostics that ignore write errors","src/lib.rs println/eprintln replacements")],observe=["results of calls under failing output streams"])
PURE="Existing tests do not touch this code. "
p("G01","Face corners lie on their face and within the brush",
 "Every corner computed for a brush face lies on that face's plane and on the inner side of every other plane of the brush, up to the documented tolerance, for every convex brush.",["inputs"],"every convex brush, whatever its shape and coordinates",PURE,
 ["src/geo_builder/brush_plane/vertices.rs","src/geo_builder/brush_plane/mod.rs"],[("three-plane intersection and hull test","src/geo_builder/brush_plane/vertices.rs")])
p("G02","Texture coordinates and tangents follow the Quake and Valve formulas",
 "For every face, texture size, rotation, scale and offset, the texture coordinates and tangents are those of the Quake (dominant axis) or Valve 220 (explicit axes) projection that the map's face format selects.",["inputs"],"every face definition and texture size",PURE,
 ["src/geo_builder/brush_plane/uvs.rs","src/geo_builder/brush_plane/tangents.rs"],[("projection formulas","src/geo_builder/brush_plane/uvs.rs")])
p("G03","Phong normals are unit length and respect the angle threshold",
 "On an entity with smooth shading enabled every vertex normal has unit length and averages exactly the adjacent face normals within the configured angle; otherwise it is the face normal.",["inputs"],"every brush and angle",PURE,
 ["src/geo_builder/brush_plane/normals.rs"],[("threshold average","src/geo_builder/brush_plane/normals.rs")])
p("G04","Rendered FGD text is a faithful, parseable form of the definitions",
 "For every set of game definitions the rendered text is valid FGD whose classes, metadata, properties, defaults, choices and flags are exactly those of the definitions.",["inputs"],"every game definition","The tests render one hand-written definition of each kind.",
 ["src/game_data/forge/game_data.rs","src/game_data/forge/entity.rs","src/game_data/forge/property.rs","src/game_data/forge/choice.rs","src/game_data/forge/metadata.rs"],[("ToString implementations","src/game_data/forge/*.rs")])
p("G05","Numeric codes of the enumerations round-trip",
 "Converting a visual, collision or class kind to its numeric code and back gives the same kind.",["inputs"],"every kind",PURE,
 ["src/game_data/types/visual_type.rs","src/game_data/types/collision_type.rs","src/game_data/forge/entity.rs"],[("paired conversions","src/game_data/types/*.rs")])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
