NOTES = "check.py first discharges the proof obligations generated from /repo's current source (gocv to Verus), then runs bounded histories of the real code, which look for a failing input and stand in, labelled bounded, for functions out of reach; see DESIGN.md."
TECH, LEVEL, NOTE, THM = {}, {}, {}, {}
TRUST = " Trusted: the translation by gocv, Verus and its Z3, the contract of the file storage manager (fsm), the protobuf codec (two axioms: decoding inverts encoding); single goroutine, no crash inside an operation, pointer parameters not aliased."
D = ["plainkv.Dict." + m for m in ("Set", "SetIfExists", "SetIfNotExists", "Clear", "Test")]
O = ["plainkv.OrderedDict." + m for m in ("Set", "SetIfExists", "SetIfNotExists", "Clear", "Test")]
IT = ["bptree.iterator." + m for m in ("GetKeySize", "GetValueSize", "ReadKey", "ReadValue", "ReadKeyAll", "ReadValueAll", "ReadRecordAll")]
ADV = ["bptree.forwardIterator.Advance", "bptree.backwardIterator.Advance"]
W = {
 "C01": ("the map clauses of the five operations, down to slots and items", D),
 "C02": ("the content clauses of the five operations (the sequence of records after the call is that before with one record added, replaced or removed), down to page bytes", O),
 "C03": ("the range clauses of RangeAsc and RangeDesc and the step of Advance over the sequence of records", ["plainkv.OrderedDict.RangeAsc", "plainkv.OrderedDict.RangeDesc"] + ADV),
 "C04": ("the list of items still to come, of which each Scan yields the head and leaves the tail", ["plainkv.Dict.Scan", "hashmap.HashMap.FetchItem"]),
 "C05": ("Close leaves a file from which Open yields the same content and counters", ["plainkv.OpenDict", "plainkv.Dict.Close", "plainkv.OpenOrderedDict", "plainkv.OrderedDict.Close"]),
 "C06": ("the codecs of keys and values against byte strings, and comparison against the lexicographic order", ["bptree.keyFactory.CreateKey", "bptree.keyFactory.ReadKeyAll", "bptree.valueFactory.CreateValue", "bptree.valueFactory.ReadValueAll", "bptree.keyComparer.CompareKey"]),
 "C07": ("page well-formedness and exact effect of every page and node operation, load bounds of every node after every operation", O[:1] + ["bptree.leafController.InsertRecords", "bptree.leafController.RemoveRecords", "bptree.nonLeafController.InsertChildren", "bptree.nonLeafController.RemoveChildren"]),
 "C08": ("an obligation at every access to file space that its accessor is of the current mapping and its space live, plus the state invariant after every operation", D + O),
 "C09": ("the set of live spaces equals the footprint of the content after every operation; destroying leaves none", D + O + ["hashmap.HashMap.Destroy", "bptree.BPTree.Destroy"]),
 "C10": ("the counters equal the counts of the content and structure", ["plainkv.Dict.Stats", "plainkv.OrderedDict.Stats"]),
 "C11": ("results are blocks allocated by the call, and the blocks of the caller are outside the frame of every operation", D + O + IT[2:]),
 "C12": ("the exact bytes, count and frame of every partial read", IT[:4]),
 "C13": ("the balance invariant: uniform depth, fill of every node, order along the leaves, slots proportional to items", D + O[:4] + ["hashmap.HashMap.maybeExpand", "hashmap.HashMap.maybeShrink"]),
}
for p, (what, thm) in W.items():
    TECH[p] = "contract-based deductive verification: contracts on the Go functions, discharged by Verus from the current source"
    LEVEL[p] = "proof"
    NOTE[p] = "Proved for all inputs and histories, function by function: " + what + "." + TRUST
    THM[p] = thm
