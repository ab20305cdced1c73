T2 = {
 "C08": ("TLA+ model of a failing writer checked with TLC; every byte position at which a write can fail, on the real code, trace-validated",
         "TLC checks the writer's contract on all small outputs and faults; the programs of an exhaustive universe and random ones are then rendered by the real code once for every byte position, "
         "kind of failure and recovery of the writer, and every such trace is validated against the contract. Bounded by those programs; trusts TLC and the harness."),
 "C07": ("TLA+ model of interleaved renderings checked with TLC; TLC-generated schedules replayed on the real code, and free runs under the race detector, trace-validated",
         "TLC checks all interleavings of two and three renderings of small templates; a controller then drives the real renderings (and wrapped html/template executions) through schedules enumerated by TLC with up to four "
         "preemptions, and runs them freely under the race detector; every distinct observation is validated against the machine run alone. Between writes and callbacks the schedule is the Go scheduler's."),
 "C12": ("TLA+ machine of wrapped-template execution; enumerated and random templates, histories and writer faults run on the real code and trace-validated",
         "TLC enumerates small template texts and execution histories with failing nodes and writers; these and larger random ones run on the real code and every execution is validated against the machine, node output "
         "being validated against the rendering machine. Bounded by those templates; trusts html/template for text outside markers."),
 "C15": ("TLA+ machine of typed lookup; TLC-enumerated data, cargo shapes, keys and types looked up by the real code, trace-validated",
         "TLC enumerates contexts, cargo shapes (struct shapes become generated Go types with embedding up to three deep) and every lookup on them is validated against the lookup machine, which is itself checked against the "
         "declarative statement. Bounded by those shapes."),
 "C18": ("TLA+ machine of markup-to-code generation over the rendering machine; TLC-enumerated and random documents and faults run on the real generators and trace-validated",
         "TLC enumerates documents over every known element and attribute name, short strings and small shapes, and checks on the machine that the generated template renders what the document says; the real generators run on these "
         "and on larger random documents, the generated expression is evaluated (a sample is compiled) and its rendering, and every read and write fault, is validated against the machine. Bounded by those documents; trusts the x/net tokenizer."),
}
