"""The properties: what they say, and what their checks explore.  properties.jsonl and MANIFEST.json
are made from this file (python3 lib/gen.py)."""

GR = "knaster_graph/src/graph.rs"
GG = "knaster_graph/src/graph_gen.rs"
TASK = "knaster_graph/src/task.rs"
NODE = "knaster_graph/src/node.rs"
ED = "knaster_graph/src/graph_edit.rs"
HA = "knaster_graph/src/handle.rs"
SCH = "knaster_graph/src/scheduling.rs"
CW = "knaster_core_dsp/src/wrappers_core"

# ---- ingredients of driver profiles
FULL = dict(fb=0.12, math=0.6, mathc=0.6, sub=0.8, name=0.4, look=0.3, has=0.3, mort=0.4, insp=1, act=2, tok=0.3, dlook=.3, dhas=.3,
            times=["none"] * 4 + ["asap", "at", "after"], kinds=["plain"] * 8 + ["ar", "prec", "precar"] * 2 + ["donear", "doneprecar"],
            caps=[16, 16, 2, 4], raw=[0, 0, 1, 2])
SUBS = dict(sub=2, subdepth=2)
DONE = dict(kinds=["plain", "plain", "done", "done", "donear", "doneprec", "doneprecar"], dones=[0, 1, 1, 2], donep=0.3, ends=2, caps=[16], mids=0.0, sub=1)
SMALL = dict(caps=[1, 2, 3], blk=5)
MIDS = dict(mids=0.4, kinds=["plain"] * 4 + ["ar"])
TIMES = dict(times=["none", "none", "asap", "at", "after", "after"], set=9, kinds=["plain", "plain", "prec", "prec", "ar"], trig=0.3)
STATIC = dict(fresh=.75, sy=.75, opsmax=8, edit=9, direct=1, math=6, mathc=6, arith=3, zip=9, outs=5, name=1, disin=2, disout=2, linkpush=2, nodes=14, tick=[0, 1, 3], ns=[1, 1, 2, 2, 0], invalid=.04, kinds=["plain"] * 5 + ["ar"])
SUMS = dict(kinds=["plain", "plain", "ar"], conp=12, con=3, ddisin=2, ddisout=6, direct=8, edit=4, free=3, zip=1, set=1, nodes=5, ns=[2, 2, 2, 1], ps=[0, 0, 0, 1], invalid=.03, focus=.4)
TOK = dict(tok=0.6, act=3, set=8, invokes=["graph", "handle", "handle"], dpush=6)
ARP = dict(kinds=["plain", "ar", "ar", "precar"], conp=8, linkpush=3, con=3, set=5)
ALL_OFF = ("alloc", "clock", "shape", "life", "init", "insp", "name")


def off(*keep):
    return [c for c in ALL_OFF if c not in keep]


def mix(*ps):
    d = {}
    for p in ps:
        d.update(p)
    return d


P = []


def prop(id, title, statement, over, quant, why, files, mech, modes=(), profiles=(), off=(), observe=(), umodes=(), uprofiles=(), extra=None, state=None, level="model_checking", note="", tech=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, modes=modes,
                  profiles=profiles, umodes=umodes, uprofiles=uprofiles, off=list(off), observe=list(observe), extra=extra or [], state=state, level=level, note=note, tech=tech))


# modes: (mode, depth quick, depth thorough); profiles: (profile, scripts quick, scripts thorough)
prop("G01", "Every block's output is what the connections say",
     "In every block each node receives, on each input channel, the sum of the sources connected to that channel (node outputs, graph inputs) and each graph output is the sum of what is connected to it. This holds for whatever sequence of connections, replacements and removals led to the present connections, and buffers of one node never leak into another's signal.",
     ["programs", "histories"], "all graphs and all histories of edits, all input signals",
     "Tests compare a few fixed graphs; sums of sources, reuse of buffers and node removal interact across arbitrary histories of edits.",
     [GR, GG, TASK, NODE], [("input edges, sum nodes", GR), ("buffer allocation", GR), ("task execution", GG)],
     modes=[("topo", 3, 4), ("feed", 2, 3)],
     profiles=[(dict(con=9, zip=7, outs=5), 350, 6000), (mix(FULL, MIDS), 120, 3000), (mix(SUBS, dict(con=8)), 100, 2500)], off=off("shape"),
     observe=["values every node receives and puts out in every block", "graph outputs"])
prop("G02", "Every node runs exactly once per block, after everything it depends on",
     "In every block each node of the graph, connected or not, is processed exactly once for the whole block, after all nodes its inputs and audio rate parameters come from have been processed, except across feedback connections. Nodes which are not part of the graph are not processed.",
     ["programs", "histories"], "all graphs and all histories of edits",
     "Order depends on the whole history of edits and ties in the traversal; tests look at a few small graphs.",
     [GR, GG], [("depth first order", GR), ("tasks of a block", GG)],
     modes=[("topo", 2, 3), ("ar", 3, 4)],
     profiles=[(dict(con=9, conp=5, kinds=["plain", "plain", "ar"], nodes=8, events=16), 250, 5000), (mix(ARP), 150, 3000), (mix(FULL), 120, 3000)], off=off("shape"),
     observe=["sequence of nodes processed in each block"])
prop("G03", "Feedback connections delay by exactly one block",
     "A feedback connection delivers in every block what its source put out in the block before (silence in the first block it exists), keeps doing so through unrelated edits, and can close cycles without affecting the order or the timing of other connections.",
     ["programs", "histories"], "all graphs with feedback connections and all histories of edits",
     "Tests cover one fixed loop; the delay must be one block regardless of node order, later edits and how many feedback connections a node has.",
     [GR, NODE], [("feedback nodes", GR), ("feedback buffers", "knaster_graph/src/graph.rs")],
     modes=[("feed", 3, 4)],
     profiles=[(dict(fb=0.45, con=9, free=2), 350, 6000), (mix(FULL, dict(fb=0.4)), 120, 3000), (mix(SUBS, dict(fb=0.4)), 80, 2000)], off=off(),
     observe=["values nodes receive", "graph outputs"])
prop("G04", "Connecting adds, connecting with replace replaces",
     "Making a connection to an input, parameter or graph output keeps all connections already there, and the replacing variants leave exactly the new one; the effect does not depend on which kind of source (node, graph input) or API (handles, node ids) made it.",
     ["programs", "histories"], "all sequences of additive and replacing connections, through every API",
     "The tests use each form once; interactions with earlier sums, graph inputs and replacements need histories.",
     [GR, ED, HA], [("connect_internal, connect_replace", GR), ("to, to_replace and operators", ED)],
     modes=[("topo", 3, 4)],
     profiles=[(dict(con=10, zip=8, outs=6, modes=["to", "rep"], linkpush=2), 300, 6000), (mix(ARP, dict(modes=["to", "rep"])), 120, 3000), (mix(FULL), 80, 2500)], off=off("insp"),
     observe=["values nodes receive", "inspection"])
prop("G05", "Disconnecting removes exactly the connections it names",
     "Disconnecting an input, an output, a graph input or a graph output removes all and only the connections to or from it, audio rate parameter connections included, and what stays connected keeps its signal.",
     ["programs", "histories"], "all graphs, all disconnections, all later edits",
     "Disconnecting interacts with the automatically added sum nodes and with parameter connections; few tests disconnect at all.",
     [GR, GG], [("disconnect_*", GR)],
     modes=[("topo", 3, 4), ("ar", 3, 4)],
     profiles=[(dict(con=8, zip=6, outs=5, ddisin=5, ddisout=5, disin=4, disout=4), 300, 6000),
               (mix(ARP, dict(ddisin=4, ddisout=4, disin=2, disout=2, free=3, con=1, edit=3, direct=6, zip=1, focus=.5)), 150, 3000), (SUMS, 250, 4000), (mix(FULL, dict(ddisin=3, ddisout=3)), 80, 2500)], off=off("insp"),
     observe=["values nodes receive", "graph outputs", "inspection"])
prop("G06", "Invalid operations are refused with an error and change nothing",
     "An operation that refers to a node of another graph, a node that no longer exists, or a channel or parameter that does not exist returns the error for it, does not panic, and leaves connections, nodes and parameters as they were.",
     ["inputs", "histories"], "all operations with all invalid arguments, in all states",
     "Tests assert some errors in isolation, not that the state afterwards is untouched.",
     [GR, ED, HA], [("validation of node ids and channels", GR)],
     modes=[("topo", 2, 2), ("sub", 2, 3)],
     profiles=[(dict(invalid=0.45, con=8, conp=5, kinds=["plain", "ar"], sub=1, ddisin=3, ddisout=3, set=6, mort=1, has=1, oldids=.4), 350, 6000),
               (mix(FULL, dict(invalid=0.4)), 150, 3000)], off=off("insp"),
     observe=["results of operations", "everything observable afterwards"])
prop("G07", "Cycles without feedback are refused, and nothing else is",
     "A connection (also to a parameter) which would close a cycle that has no feedback connection in it is refused and has no effect; no connection is refused as circular unless it closes such a cycle.",
     ["programs", "histories"], "all graphs and all histories",
     "Whether a path exists depends on all earlier edits, among them removals; tests try one cycle.",
     [GR], [("recursive check for circular connections", GR)],
     modes=[("feed", 3, 4), ("ar", 3, 4)],
     profiles=[(dict(con=14, conp=6, kinds=["plain", "ar"], fb=0.2, invalid=0.03, nodes=7, direct=6), 300, 6000), (mix(ARP, dict(direct=7, dpush=3, conp=12, con=7, edit=3, set=1, focus=.5, linkpush=1, invalid=.02)), 250, 4000), (mix(FULL), 60, 2000)], off=off("insp"),
     observe=["results of connection operations", "order of nodes"])
prop("G08", "Edits take effect as a whole at block boundaries; other nodes keep their state",
     "A block sees either all or none of an edit, never a mixture, and edits take effect in the order in which they were made, at the latest in the first block after they could be delivered. Nodes an edit does not mention continue undisturbed, without a reset or a skipped or repeated frame.",
     ["schedules", "histories"], "all edits, made at any point in between or during blocks",
     "Tests make edits between blocks only; here they also arrive during a block and while earlier ones are still under way.",
     [GR, GG], [("commit", GR), ("snapshots through the ring buffer", GG)],
     modes=[("hand", 4, 6), ("hand2", 4, 5)],
     profiles=[(mix(MIDS, dict(caps=[1, 2, 16], mids=0.6, edit=8)), 300, 6000), (mix(FULL, MIDS), 150, 3000)], off=off("init", "life"),
     observe=["nodes processed and values in every block", "initialisation of nodes"])
prop("G09", "Nodes are dropped once, on the control side, never while in use, never leaked",
     "A node that was removed is dropped exactly once, by a later edit on the control side and only after the audio side has stopped using it; nodes which were not removed are not dropped before their graph is; when everything is gone, every node has been dropped.",
     ["schedules", "histories"], "all histories of edits and blocks",
     "Reclamation depends on the interleaving of edits, blocks and pending snapshots.",
     [GR, GG, NODE], [("nodes to be freed, flags set by the audio thread", GR), ("generation of applied snapshots", GG)],
     modes=[("hand", 5, 6), ("hand2", 4, 5), ("done", 3, 4)],
     profiles=[(mix(SMALL, dict(free=6, push=7, edit=9)), 250, 6000), (mix(SUBS, dict(free=5)), 120, 3000), (DONE, 120, 3000), (mix(FULL, MIDS, dict(free=4)), 100, 3000)], off=off("life", "alloc"),
     observe=["destructors of nodes, and the thread they run on"])
prop("G10", "Done actions free what they name, once, and nothing else",
     "When a node reports that it is done, its done action is performed: nothing, freeing the node itself, or freeing its graph, which is silent from the frame on at which the node was done. Immortal nodes stay, and no other node is affected.",
     ["programs", "histories"], "all done actions at all frames, in nested graphs, mixed with edits",
     "Tests free one node; frames within the block, nested graphs, mortality and edits interact.",
     [GG, GR, "knaster_graph/src/wrappers_graph/done.rs"], [("flags of a block", GG), ("free of flagged nodes", GR)],
     modes=[("done", 4, 5)],
     profiles=[(DONE, 300, 6000), (mix(DONE, dict(mort=2, sub=2, subdepth=2)), 200, 4000)], off=off("life"),
     observe=["nodes processed", "graph outputs", "destructors"])
prop("G11", "The audio thread neither allocates nor frees memory",
     "Processing a block, including taking over edits, applying parameter changes, done actions and dropping what an edit removed, performs no heap allocation and no deallocation and runs no destructor of a node.",
     ["schedules", "histories", "programs"], "all histories of edits, parameter changes and blocks",
     "One test runs one graph under a no-alloc assertion; the paths that matter are taken on edits.",
     [GG, GR, TASK], [("snapshots are returned to the control side", GG), ("fixed capacity queues", SCH)],
     modes=[("hand2", 4, 5), ("tight", 3, 5)],
     profiles=[(mix(FULL, MIDS), 220, 5000), (mix(SMALL, TIMES), 150, 3000), (DONE, 80, 2000), (mix(SUBS, dict(free=5)), 100, 3000)], off=off("alloc"),
     observe=["a counting global allocator, armed on the audio thread", "destructors of nodes"])
prop("G12", "Full channels to the audio thread lose nothing that was accepted",
     "When more edits or parameter changes are made than the channel to the audio thread holds, edits are kept and delivered later and excess parameter changes are refused with an error; whatever was accepted takes effect once, in order.",
     ["schedules", "histories"], "all capacities and all histories which fill the channels",
     "Tests use channels that never fill up.",
     [GR, GG], [("ring buffers", GR)],
     modes=[("hand", 5, 6), ("tight", 4, 6)],
     profiles=[(mix(SMALL, dict(edit=10, set=8, blk=4)), 300, 6000), (mix(SMALL, MIDS, dict(edit=8, set=8)), 150, 3000), (mix(FULL, SMALL), 80, 2500)], off=off("life"),
     observe=["results", "nodes processed and values in every block"])
prop("G13", "Names, lookup and mortality refer to the right node",
     "A name finds a node that was given this name and still exists, or nothing; asking for a node tells whether it is part of this graph; immortal nodes cannot be freed and mortal ones can.",
     ["histories"], "all histories of naming, freeing, and reusing node ids",
     "Lookup after freeing and reuse of keys is not tested.",
     [GR, ED], [("set_name, set_mortality, lookup", GR)],
     modes=[("name", 4, 6)],
     profiles=[(dict(name=5, look=3, has=3, mort=4, dlook=3, dhas=3, free=4, con=3), 350, 6000), (mix(FULL, dict(name=3, look=3, mort=3, free=3)), 120, 3000), (mix(DONE, dict(mort=5, free=5, direct=6, look=1, has=2, name=2)), 200, 3000)], off=off("name", "insp"),
     observe=["results of lookups", "results of freeing"])
prop("G14", "Inspection describes the graph as it is",
     "The inspection of a graph lists every node once with its channels, parameters and name, and exactly the connections that exist, with nodes ordered so that sources come first; unconnected nodes are marked. Nodes that a graph adds for sums and feedback are there only as long as connections need them.",
     ["histories"], "all histories of edits",
     "Inspection is tested on fixed graphs only.",
     [GR, "knaster_graph/src/inspection.rs"], [("inspection", GR)],
     modes=[("name", 3, 5)],
     profiles=[(dict(insp=8, con=8, zip=6, outs=5, ddisin=2, ddisout=2, free=3, fb=.25), 350, 6000), (mix(FULL, dict(insp=6, fb=.2)), 150, 3000),
               (dict(con=10, outs=8, free=6, insp=6, fb=.3, edit=6, direct=4, nodes=4, focus=.5), 1200, 6000), (dict(con=6, outs=8, free=6, insp=8, edit=8, nodes=3, modes=["to", "to", "rep"], dis=2), 1200, 6000), (mix(ARP, dict(insp=5)), 100, 2500)], off=off("insp"),
     observe=["inspection"])
prop("G15", "A graph within a graph behaves as its contents would",
     "A subgraph puts out what its own nodes and connections compute from the inputs its parent gives it, in the same block; edits and parameter changes made to it take effect like those of a top level graph; freeing it stops and frees everything in it.",
     ["programs", "histories"], "all nestings, all histories of edits at all levels",
     "Tests nest one graph once.",
     [GR, GG], [("graph as a node", GG)],
     modes=[("sub", 3, 4), ("done", 3, 4)],
     profiles=[(mix(SUBS, dict(sub=3, edit=8, direct=4)), 300, 6000), (mix(FULL, SUBS), 120, 3000), (mix(SUBS, SMALL), 80, 2000)], off=off("life", "init"),
     observe=["nodes processed and values in every block"])
prop("G16", "Operators on handles compute what they say, channel by channel",
     "Arithmetic between handles and with constants, connecting with operators, stacking handles and choosing channels connect channels in the order written and pass the operands in the order written; every result is the value of that expression in every frame.",
     ["programs"], "all expressions over all sources",
     "Operand order and channel pairing have many combinations; tests cover a few.",
     [ED, HA, "knaster_core_dsp/src/ugens/math.rs"], [("operator implementations", ED), ("MathUGen", "knaster_core_dsp/src/ugens/math.rs")],
     modes=[("sub", 2, 3)],
     profiles=[(dict(math=8, mathc=8, arith=4, zip=6, outs=6, con=2, set=3), 300, 6000), (STATIC, 300, 6000), (mix(STATIC, dict(fb=.4, modes=["to", "rep"], arith=0, math=2, mathc=2)), 150, 3000), (mix(FULL, dict(math=4, mathc=4)), 120, 3000)], off=off(),
     observe=["values nodes receive", "graph outputs"])
prop("G18", "What is not connected is silent, and still runs",
     "Inputs and graph outputs to which nothing is connected (any more) read as silence in every block, whatever was there before, and nodes whose output is not used are processed all the same.",
     ["programs", "histories"], "all graphs and histories, with inputs that lose their last connection",
     "Stale buffers only show after particular histories.",
     [GR, GG], [("the empty buffer for unconnected inputs", GR)],
     modes=[("topo", 3, 4)],
     profiles=[(dict(con=5, zip=4, outs=3, ddisin=4, ddisout=4, free=4, push=8, nodes=8), 350, 6000), (mix(SUBS, dict(con=3)), 120, 3000), (mix(FULL, dict(con=3, free=4)), 80, 2500)], off=off(),
     observe=["values nodes receive", "graph outputs", "nodes processed"])
prop("G19", "Inputs of a graph reach what they are connected to in the same block",
     "A graph input can be connected to node inputs and directly to graph outputs, several times and along with other sources; its signal arrives unchanged in the same block, at the top level and in nested graphs.",
     ["programs", "inputs"], "all graphs and all input signals",
     "Few tests use graph inputs; direct input to output connections and sums of them have cases of their own.",
     [GR, GG], [("graph input edges", GR)],
     modes=[("topo", 2, 3), ("sub", 2, 3)],
     profiles=[(dict(topio=[(1, 1), (2, 2), (3, 2), (2, 3), (1, 2)], con=10, outs=6, invalid=.05), 300, 6000),
               (mix(SUBS, dict(topio=[(1, 1), (2, 2), (3, 2), (2, 3)])), 120, 3000), (mix(FULL), 60, 2000)], off=off(),
     observe=["values nodes receive", "graph outputs"])
prop("S01", "Every parameter change is applied once, in order, to what it names",
     "A parameter change that was accepted reaches exactly the node and parameter it was meant for, exactly once, before the next block is computed, in the order in which the changes were made; no other node or parameter changes.",
     ["schedules", "histories"], "all sequences of changes between and during blocks, through every API",
     "Tests set one parameter at a time.",
     [GR, GG, SCH, ED, HA], [("scheduling events", SCH), ("apply_parameter_change", GG)],
     modes=[("sched", 2, 3), ("tight", 3, 5)],
     profiles=[(dict(set=12, eset=3, dpush=5, trig=.35, invokes=["graph", "param", "handle"]), 300, 6000), (mix(TIMES), 100, 3000), (mix(FULL, MIDS, dict(set=8)), 120, 3000)], off=off(),
     observe=["changes as they reach the nodes", "outputs"])
prop("S02", "Timed changes take effect in the block that contains their time",
     "A change given an absolute time, or a delay from the time it was made, however far ahead, is applied in the block which contains that time, or in the next one if that time has passed; changes for the same node and time are applied in the order they were made.",
     ["schedules", "histories", "inputs"], "all times and delays, all arrival orders",
     "Tests schedule single changes far apart.",
     [GG, SCH, "knaster_primitives/src/time.rs"], [("waiting changes", GG), ("Time", SCH)],
     modes=[("sched", 3, 4)],
     profiles=[(mix(TIMES, dict(set=12)), 300, 6000), (mix(TIMES, SMALL), 100, 2500), (mix(FULL, TIMES, SUBS), 100, 3000),
               (mix(TIMES, dict(events=26, blk=14, maxdelay=100)), 100, 3000)], off=off("shape"), extra=["clocks.check"],
     observe=["changes as they reach the nodes", "outputs"])
prop("S03", "Changes that wait for a token are applied when it is activated, not before",
     "A change scheduled with a token is held back until the token has been activated and is then applied in the next block, exactly once, together with every other change that waited for the same token; other tokens have no influence.",
     ["schedules", "histories"], "all orders of scheduling and activating tokens",
     "Not covered by tests beyond a single token.",
     [GG, SCH], [("SchedulingToken", SCH), ("waiting changes", GG)],
     modes=[("sched", 3, 4)],
     profiles=[(mix(TOK), 300, 6000), (mix(TOK, SMALL), 120, 3000), (mix(FULL, TOK, MIDS), 100, 3000)], off=off(),
     observe=["changes as they reach the nodes"])
prop("S04", "Changes which cannot be applied expire, without delaying or displacing others",
     "A change that is due but waits (for its token or its node) for more than about one second is discarded, while one whose time has not come yet is kept however far ahead it is; a change that cannot be held for lack of room is discarded; changes that are ready are never delayed or displaced by ones that wait.",
     ["schedules", "histories"], "all mixtures of waiting and ready changes over many blocks",
     "Needs histories of more than a second with particular mixtures.",
     [GG, SCH], [("waiting changes", GG)],
     modes=[("tight", 4, 6), ("sched", 2, 3)],
     profiles=[(mix(TIMES, TOK, SMALL, dict(events=24, blk=12, maxdelay=80)), 250, 5000), (mix(TOK, dict(events=24, blk=14)), 120, 3000), (mix(FULL, dict(events=24, blk=14)), 60, 2000),
               (mix(TOK, dict(events=16, blk=3, wait=3, act=4, oldids=.3)), 300, 5000)], off=off(),
     observe=["changes as they reach the nodes"])
prop("S05", "Parameters can be addressed by index or name, and only those that exist",
     "A parameter named by its index or by its description is the same parameter; an index or name which the node does not have is refused with an error by every API and has no effect.",
     ["inputs", "histories"], "all nodes, indices and names, through every API",
     "Tests address a few parameters by one API each.",
     [GR, ED, HA, NODE], [("parameter descriptions", NODE)],
     modes=[("tight", 3, 4)],
     profiles=[(dict(set=12, eset=4, dpush=5, invalid=.35, kinds=["plain", "done", "ar", "prec"], conp=5, linkpush=3), 350, 6000), (mix(FULL, dict(set=8, invalid=.3)), 120, 3000)], off=off("insp"),
     observe=["results", "changes as they reach the nodes"])
prop("S06", "Precise timing applies changes at exactly their frame",
     "For a node with precise timing, a timed change takes effect from exactly the frame of its time on, and not one frame earlier or later, in whichever order the changes were made; the node still processes every frame of the block exactly once.",
     ["inputs", "histories"], "all frames, block sizes, orders of arrival and numbers of changes within a block",
     "Tests use one or two changes in order.",
     [CW + "/precise_timing.rs", GG], [("WrPreciseTiming", CW + "/precise_timing.rs")],
     modes=[("sched", 3, 4)],
     profiles=[(mix(TIMES, dict(kinds=["prec", "prec", "plain", "doneprec"], set=14, times=["at", "after", "after", "none"], maxdelay=12)), 300, 6000),
               (mix(TIMES, ARP, dict(kinds=["precar", "prec", "plain"], set=10)), 120, 3000), (mix(FULL, TIMES), 80, 2500)], off=off("shape"),
     uprofiles=[(dict(gen="wrap", special=[["prec"], ["prec", "ar"], ["prec", "smooth"]]), 200, 4000)],
     observe=["outputs frame by frame", "process calls"])
prop("S07", "A parameter driven at audio rate follows its source frame by frame",
     "While something is connected to a parameter, the parameter has in each frame the value of that frame of the (sum of the) connected sources; direct changes of it have no effect; once disconnected it obeys direct changes again. Other parameters of the node are not affected.",
     ["programs", "histories"], "all connections to parameters, edits and direct changes",
     "Tests connect once and never disconnect.",
     [CW + "/audio_rate.rs", GG, GR], [("WrArParams", CW + "/audio_rate.rs"), ("parameter edges", GR)],
     modes=[("ar", 3, 4)],
     profiles=[(ARP, 300, 6000), (mix(ARP, dict(ddisin=4, ddisout=4, free=4, sub=1, con=1, conp=10, direct=6, focus=.5)), 150, 3000), (SUMS, 250, 4000), (mix(FULL, ARP), 100, 3000)], off=off(),
     umodes=[("ar", 3, 4)], uprofiles=[(dict(gen="wrap", special=[["ar"], ["ar"], ["prec", "ar"], ["ar", "smooth"]]), 200, 4000)],
     observe=["outputs frame by frame", "changes as they reach the nodes"])
prop("S08", "Changes made before their node reaches the audio side take effect with it",
     "A parameter change for a node that has been pushed but is not part of the running graph yet waits for it and is applied in the first block in which the node is processed.",
     ["schedules", "histories"], "all interleavings of pushing, committing, changing parameters and blocks",
     "Depends on the interleaving of the control and the audio side.",
     [GG, GR], [("waiting changes", GG)],
     modes=[("hand", 4, 5), ("tight", 4, 5)],
     profiles=[(dict(dpush=9, direct=7, push=7, set=9, edit=4, eset=4, free=3, caps=[1, 2, 16], nodes=8), 300, 6000), (mix(MIDS, dict(dpush=7, set=8)), 120, 3000), (mix(FULL, dict(dpush=6)), 80, 2500)], off=off(),
     observe=["changes as they reach the nodes", "outputs"])
prop("S09", "The clock counts frames without gaps",
     "The frame clock a node sees at the start of a block is the number of frames processed before, at every nesting level and whether the blocks were produced one by one or not; a node that processes a block in pieces sees each piece's place in the block.",
     ["histories", "configurations"], "all histories of blocks and edits",
     "Tests look at the clock of a first block.",
     [GG, "knaster_graph/src/processor.rs", "knaster_core/src/ugen.rs"], [("AudioCtx", "knaster_core/src/ugen.rs")],
     modes=[("sub", 2, 3)],
     profiles=[(mix(FULL, SUBS), 250, 5000), (mix(TIMES, dict(kinds=["prec", "plain"])), 150, 3000)], off=off("clock", "shape", "init"),
     extra=["clocks.check"],
     observe=["frame clock within every process call", "sample rate and block size at initialisation"])

UG = "knaster_core_dsp/src/ugens"


def wrap(special, **kw):
    return dict(gen="wrap", special=special, **kw)


def lib(name, **kw):
    return dict(gen="lib", lib=name, **kw)


# ---- UGens and wrappers on their own
prop("W01", "Wrappers change what they say and pass on everything else",
     "A wrapper applies its operation to every output sample, however the block is divided, and passes everything else on to what it wraps: parameter changes of all kinds, signals for parameters, delays of changes, done flags and block metadata. Wrappers can be stacked in any order and a parameter that a wrapper adds has the index after those of what it wraps.",
     ["programs", "inputs", "histories"], "all stacks of wrappers, all sequences of changes, inputs and divisions of blocks",
     "Tests look at one wrapper at a time, with full blocks and a single parameter.",
     [CW + "/math.rs", CW + "/closure.rs", CW + "/precise_timing.rs", CW + "/smooth_params.rs", CW + "/audio_rate.rs", "knaster_graph/src/wrappers_graph/done.rs"],
     [("arithmetic wrappers", CW + "/math.rs"), ("forwarding of parameters and signals", CW)],
     umodes=[("wrap", 3, 4)],
     uprofiles=[(wrap([[]], exact=1), 400, 8000), (wrap([["prec"], ["ar"], ["prec", "ar"]], exact=1), 300, 6000), (wrap([["ar"], ["prec", "ar"], ["smooth"]]), 200, 4000)],
     observe=["samples", "done flags", "parameters as the wrapped UGen sees them, through its output"])
prop("S10", "Smoothing moves a parameter to its target frame by frame, in the time set",
     "A parameter with smoothing goes from its current value to the value it was set to in a straight line that takes the duration set, reaches it exactly, and stays; a change while it moves continues from the value it has then. Without smoothing it changes at once. Other parameters are not affected, and signals and other kinds of change pass through.",
     ["inputs", "histories"], "all sequences of settings, changes and blocks, all durations, with and without audio rate and precisely timed parameters",
     "Tests smooth one parameter over one block.",
     [CW + "/smooth_params.rs"], [("WrSmoothParams", CW + "/smooth_params.rs")],
     umodes=[("smooth", 3, 5), ("ar", 3, 4)],
     uprofiles=[(wrap([["smooth"]]), 350, 7000), (wrap([["ar", "smooth"], ["smooth", "ar"]]), 150, 3000), (wrap([["prec", "smooth"], ["prec", "smooth", "ar"]]), 150, 3000)],
     observe=["parameter values as the wrapped UGen sees them, through its output"])
prop("U01", "What a UGen puts out does not depend on how its frames are divided into blocks",
     "Processing frames one by one, in pieces of a block, or as whole blocks gives the same samples and marks a UGen as done in the same frame, for every UGen of the library, if parameters change at the same frames.",
     ["inputs", "histories", "configurations"], "all UGens, inputs, parameter changes and divisions into blocks and pieces",
     "Tests process whole blocks of one size. UGens have separate code for frames and blocks, and wrappers divide blocks.",
     ["knaster_core/src/ugen.rs", UG + "/envelopes.rs", UG + "/osc.rs", UG + "/delay.rs", UG + "/buffer.rs", UG + "/svf.rs", UG + "/onepole.rs", UG + "/polyblep.rs", UG + "/math.rs", UG + "/pan.rs", UG + "/util.rs"],
     [("process and process_block", "knaster_core/src/ugen.rs"), ("UGens", UG)],
     umodes=[("asr", 4, 6), ("buf", 2, 3)],
     uprofiles=[(lib("opaque"), 250, 6000)] + [(lib(x, ref=.8), 100, 2500) for x in ("math", "env", "asr", "buf", "osc", "delay")],
     observe=["samples", "done flags"])
prop("M01", "Math UGens compute their operation in every frame, channel by channel",
     "Addition, subtraction, multiplication, division, power, rounding, square root, exponential, constants, closures and the safety limiter put out, in each frame and channel, the result of their operation on that frame of their inputs and nothing else.",
     ["inputs", "configurations"], "all inputs, channel counts and divisions of blocks",
     "Tests compute one block of one operation.",
     [UG + "/math.rs", UG + "/dynamics.rs", UG + "/closure.rs", UG + "/util.rs"], [("MathUGen", UG + "/math.rs"), ("SafetyLimiter", UG + "/dynamics.rs")],
     umodes=[("math", 1, 2)],
     uprofiles=[(lib("math"), 400, 8000), (lib("math", ref=0, wrap=.8), 150, 3000)],
     observe=["samples"])
prop("D01", "Delays delay by exactly the time they are set to",
     "A delay puts out its input of exactly the number of frames ago that it is set to, and silence before that, for every delay up to its maximum and after every change; allpass delays and feedback delays do so for whole frames, and delay by the fraction that remains with a first-order allpass; negative delays are the shortest one.",
     ["inputs", "histories"], "all inputs, delays up to the maximum, and changes of the delay",
     "Tests use one delay, away from the limits of the buffer.",
     [UG + "/delay.rs"], [("SampleDelay, AllpassDelay, AllpassFeedbackDelay, StaticSampleDelay", UG + "/delay.rs")],
     umodes=[("delay", 3, 5)],
     uprofiles=[(lib("delay", sr=[64, 64, 128, 192, 32, 96]), 400, 8000), (lib("delay", ref=0, wrap=.8, p=.2, events=24), 150, 3000)],
     observe=["samples"])
prop("E01", "Envelopes follow their segments and report their end in its exact frame",
     "ASR, AR and segment envelopes follow the times and levels they are set to frame by frame, stay within their levels, start and restart from their current value without a jump where they promise to, and mark done exactly once, in the frame in which they end, whatever the sequence of triggers and parameter changes.",
     ["inputs", "histories"], "all durations, levels, triggers and parameter changes at all frames",
     "Tests trigger once. Restarts in every state, durations of 0 and loops are histories of their own.",
     [UG + "/envelopes.rs"], [("EnvAsr, EnvAr, Envelope", UG + "/envelopes.rs")],
     umodes=[("asr", 5, 8), ("env", 5, 8)],
     uprofiles=[(lib("asr", sr=[64, 64, 128, 32, 48000]), 350, 7000), (lib("env", sr=[64, 64, 128, 32, 48000]), 350, 7000)],
     observe=["samples", "done flags"])
prop("B02", "Buffer players and oscillators read the right position, within bounds",
     "A buffer player puts out the interpolated value of its buffer at a position that advances with its rate, starts, ends, loops and restarts where it is told, reads nothing outside of the buffer and is done once when it ends; oscillators advance their phase by their frequency and restart and offset it as told.",
     ["inputs", "histories"], "all buffers, rates, start and end points, loops, frequencies, phases and triggers",
     "Tests play one buffer once, oscillators are compared at one frequency.",
     [UG + "/buffer.rs", UG + "/osc.rs", "knaster_core_dsp/src/dsp/buffer.rs", "knaster_core_dsp/src/dsp/wavetable.rs"], [("BufferReader", UG + "/buffer.rs"), ("OscWt, SinWt, SinNumeric, Phasor", UG + "/osc.rs")],
     umodes=[("buf", 3, 4), ("osc", 4, 7)],
     uprofiles=[(lib("buf", sr=[64, 64, 128, 32, 48000]), 400, 8000), (lib("osc"), 250, 5000)],
     observe=["samples", "done flags"])
prop("F01", "Filters, waveforms and panning follow their equations",
     "One pole filters and state variable filters of every type put out what their difference equation gives for the cutoff, quality and gain they are set to, from the frame of a change on and without losing their memory; the anti-aliased oscillator puts out the waveform it is set to, at its frequency and pulse width, with its jumps and bends rounded off; sine oscillators follow the sine of their phase, and panning keeps the power of its input, within the accuracy of the approximations used.",
     ["inputs", "histories"], "all filter types, waveforms, settings, changes and inputs",
     "Tests look at the sign or the size of a few samples of one setting. Every type of filter and waveform has code of its own, and its coefficients change while it runs.",
     [UG + "/svf.rs", UG + "/onepole.rs", UG + "/polyblep.rs", UG + "/pan.rs", UG + "/osc.rs"], [("SvfFilter", UG + "/svf.rs"), ("OnePoleLpf, OnePoleHpf", UG + "/onepole.rs"), ("PolyBlep", UG + "/polyblep.rs"), ("Pan2", UG + "/pan.rs"), ("SinWt, SinNumeric", UG + "/osc.rs")],
     umodes=[("filter", 2, 3), ("wave", 3, 4)],
     uprofiles=[(lib("opaque", events=20, sr=[64, 64, 80]), 700, 12000), (lib("osc"), 150, 3000)],
     observe=["samples"])

prop("P01", "A checked parameter change applies to the parameter meant, or is refused",
     "Setting a parameter of a UGen by index or by name through the checked interface applies the value to exactly that parameter, and answers with the documented error, changing nothing, if there is no such parameter or the value is of another type. Wrappers keep the names, types and order of the parameters of what they wrap, and add theirs after them.",
     ["programs", "inputs", "histories"], "all UGens of the library, stacks of wrappers, indices, names and types of values, valid or not, between any blocks",
     "Tests set the first parameter by its index to a value of the right type.",
     ["knaster_core/src/ugen.rs", "knaster_core/src/parameters.rs", "knaster_core/src/parameters/types.rs", "knaster_macros/src/lib.rs", CW + "/math.rs", CW + "/smooth_params.rs", CW + "/audio_rate.rs", CW + "/precise_timing.rs"],
     [("UGen::param", "knaster_core/src/ugen.rs"), ("names and types of parameters", "knaster_macros/src/lib.rs")],
     umodes=[("set", 2, 3)],
     uprofiles=[(dict(gen="set"), 500, 10000)],
     observe=["answers", "names and types of the parameters", "samples, before and after"])
prop("L01", "Log messages arrive whole and in order, or not at all",
     "Each message logged through a sender is received exactly once, complete, with the values logged, and in the order of sending; a message that does not fit into what is left of the channel is lost as a whole and damages no other, and the channel works as before once it has been emptied. Senders added later, several senders and a receiver on another thread make no difference. A LogProbe logs its input under its name once per second of frames, starting with the first frame.",
     ["schedules", "inputs", "histories"], "all sequences of messages of all types, capacities, numbers of senders, times of receiving, sample rates and blocks of probes, and schedules of two threads",
     "Tests send a few messages through a channel with room to spare.",
     ["knaster_core/src/log.rs", "knaster_core_dsp/src/ugens/util.rs"], [("rt_log!, ArLogSender, ArLogReceiver", "knaster_core/src/log.rs"), ("LogProbe", "knaster_core_dsp/src/ugens/util.rs")],
     extra=["logs.check"], observe=["received messages"])
prop("T01", "Musical time and seconds are calculated exactly",
     "Sums, differences, products, comparisons and conversions of seconds and beats are those of the exact numbers of subdivisions they stand for, rounded down where a result lies between two; differences below zero are refused or stop at zero, and conversions from and to floating point numbers are as precise as those. Results are always normalised: less than one whole unit of subdivisions.",
     ["inputs"], "all values, sample rates, fractions, durations and floating point numbers in range, and sequences of calculations",
     "Tests calculate with a handful of values.",
     ["knaster_primitives/src/time.rs"], [("Seconds, Beats", "knaster_primitives/src/time.rs")],
     extra=["times.check"], observe=["results of calculations"])
prop("B01", "Blocks and windows into them hold exactly the samples written",
     "Reading a channel and frame of a block gives what was last written there, through whichever kind of block and whichever nested window of it the accesses are made; a window has the frames from its offset on for its length, and accesses through it reach no other frame. Accesses beyond a block are refused.",
     ["programs", "inputs", "histories"], "all kinds of blocks, numbers of channels, sizes, nested windows and sequences of accesses",
     "Tests read single values of a block, and few make windows.",
     ["knaster_primitives/src/block.rs", "knaster_graph/src/block.rs"],
     [("VecBlock, StaticBlock, PartialBlock, PartialBlockMut", "knaster_primitives/src/block.rs"), ("RawContiguousBlock, AggregateBlockRead", "knaster_graph/src/block.rs")],
     extra=["blocks.check"], observe=["samples read, channel slices and sizes"])

NOT = []
HOOKS = None
