import json
F=[
 dict(id="F6",property="C03",status="known",what="a worker process that dies (killed, or ended by an interrupt delivered to it alone) takes its task with it: multiprocessing.Pool starts a new worker but never runs that task again, and the caller waits forever for its result (e.g. H1 with T1, 2 workers, the worker holding the first task is killed)"),
 dict(id="F7",property="C02",status="known",what="the connected contractions of four or more operators lack those that only become connected at a later step of the enumeration order (e.g. four active one-body operators, max_cu=1, max_n_open=6: 71 of 101)"),
 dict(id="F1",property="C06",status="fixed",what="fixed: property=C06 5c53658 Indices kept the cursor of its iteration in the object, so that two iterations at a time over one object (threads, generators, nested loops) skipped or repeated indices"),
 dict(id="F2",property="C07",status="fixed",what="fixed: property=C07 c5851c2 combine_terms changed the coefficients of the terms it was given"),
 dict(id="F3",property="C05",status="fixed",what="fixed: property=C05 5efbe61 enumerating more than 1000 elementary contractions lowered a recursion limit the caller had set higher"),
 dict(id="F5",property="C12",status="fixed",what="fixed: property=C12 ad53f7e the order in which composite spaces were expanded followed the hash seed"),
 dict(id="F8",property="C05",status="fixed",what="fixed: property=C05 627be0a the template files stayed open after a save"),
 dict(id="F4",property="C08",status="fixed",what="fixed: property=C08 070247b the saved main function scaled its results before adding the contributions of the functions it calls, and declared no temp when it needed one"),
 dict(id="F9",property="C08",status="fixed",what="fixed: property=C08 9a6be9c the saved function of a list without terms had a stray comma in its parameter list"),
]
json.dump(F,open('/verif/known_findings.json','w'),indent=1)
import sys; sys.path.insert(0,'/verif/sim'); import plans
tech={
"C01":"deterministic simulation: seeded scheduler of a simulated process pool, compared with a pristine serial run",
"C02":"deterministic simulation: seeded scheduler of pool and consumers, streams compared with an independent enumerator",
"C03":"deterministic simulation with fault injection in and around workers; outcome compared with a pristine serial run",
"C04":"deterministic simulation over machine sizes, batches, start methods and worker replacement, compared with a serial run",
"C05":"deterministic simulation with interrupts, errors and abandoned streams at seeded points; state, workers and repetition checked",
"C06":"deterministic simulation: seeded thread switches at line or bytecode granularity and alternating generators, compared with runs alone",
"C07":"deterministic simulation of seeded histories with interrupted and abandoned requests; pristine-process reference and operand snapshots",
"C08":"deterministic simulation with file-operation faults (LD_PRELOAD seam); saved code run by an independent interpreter",
"C09":"deterministic simulation with crashes and faults of file operations; repetition and surroundings compared byte for byte",
"C10":"deterministic simulation with failing directory operations, checked against a small reference model",
"C11":"deterministic simulation of a failing console, text checked against an independent evaluation of the terms",
"C12":"deterministic simulation of the same seeded requests under chosen hash seeds, outputs compared",
"C13":"deterministic simulation with simulated clocks, checked against simulated elapsed time",
}
note="Seeded search over simulated runs; a clean batch is evidence, not proof. "
checks=[]
for p in sorted(plans.PLANS):
    q=plans.plan(p,"quick")
    checks.append(dict(property=p,quick_cmd="python3-vt sim/driver.py %s --tier quick"%p,thorough_cmd="python3-vt sim/driver.py %s --tier thorough"%p,
      technique=tech[p],level=q["level"],level_note=note+"Trusted: "+"; ".join(q["assumptions"])+"."))
NA={
"C20":"The value of a derived equation is a pure function of its operands: no schedule, clock, I/O or fault takes part, so a simulator has nothing to decide. (That the contraction stream is complete under every schedule is C02.)",
"C21":"Canonicalization of one term is a pure computation on immutable input; no interleaving, time or fault can change its outcome except through shared state, which C06 and C07 cover.",
"C22":"Spin integration and adaptation are pure functions of one term; nothing in them depends on schedules, time or I/O.",
"C23":"Optimality of the contraction cost is a statement about one pure search per term; no nondeterminism to simulate.",
"C24":"Ordering and hashing are pure comparisons of values; the part that depends on the run (hash seeds) is C12.",
"C25":"Rejection of malformed input is decided by one pure constructor call per input; no schedule or fault takes part.",
"C26":"Faithfulness of LaTeX text is a pure function of one term; completeness and order of printing under stream failures is C11.",
}
M=dict(version=1,setup_cmd="python3-vt sim/setup.py",
 hooks=dict(guard="DSRG_GENERATOR_SIM_BATCH_SIZE",enable="the simulator sets the environment variable DSRG_GENERATOR_SIM_BATCH_SIZE around a simulated request; unset, contract_terms uses its own batch size",source_commits=["e66384e274d24dcafaf5fefaa58c0a281401af26"]),
 checks=checks,not_applicable=[dict(property=k,reason=v) for k,v in NA.items()],
 notes="See DESIGN.md. Every check draws all choices from VERIF_SEED; replay with: python3-vt sim/driver.py <property> --replay <file>.")
json.dump(M,open('/verif/MANIFEST.json','w'),indent=1)
