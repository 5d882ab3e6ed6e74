"""How each property is decided (source of MANIFEST.json)."""
MC = 'explicit bounded-exhaustive exploration of the real code against a reference model'
HIST = 'explicit-state exploration of all bounded operation histories of the real code'
SCHED = 'stateless exploration of all bounded thread schedules of the real code under a controlled scheduler'
NOTE = 'Exhaustive within the bounds stated in the evidence; trusts the reference model in mc/ref.py.'
CHECKS = {
 'C01': (MC, NOTE),
 'C02': (MC, NOTE),
 'C03': (MC, NOTE),
 'C04': (MC, NOTE),
 'C05': (MC, NOTE),
 'C06': (MC, NOTE),
 'C07': (MC, 'Exhaustive within the stated grids; needs no model beyond "a value or a validation error".'),
 'C08': (HIST, 'Exhaustive within the stated histories; the oracle is the same operation on a fresh schema.'),
 'C09': (MC, NOTE),
 'C10': (MC, NOTE),
 'C11': (MC, NOTE),
 'C12': (MC, NOTE),
 'C13': (MC, 'Exhaustive within the stated bounds; the oracle is the value written.'),
 'C14': (MC, 'Exhaustive within the stated bounds; the oracle is the value written.'),
 'C15': (MC, NOTE),
 'C16': (HIST, 'Exhaustive within the stated histories and fault points; the oracle is a model of the files.'),
 'C17': (MC, NOTE),
 'C18': (MC, 'Exhaustive within the stated bounds; the oracle is a model over the schema term.'),
 'C19': (HIST, NOTE),
 'C20': (HIST, NOTE),
 'C23': (HIST, 'Exhaustive within the stated grids and histories; the oracle is a model over schema terms.'),
 'C24': (MC, 'Exhaustive within the stated bounds; the oracle is a model of hooks and the behaviour of the base class.'),
 'C25': (MC, 'Exhaustive within the stated menus; the oracle is a table of what each parameter may be.'),
 'C26': (MC, 'Exhaustive within the stated bounds; the oracle is a functional model, and reading the rendered text back.'),
 'C27': (MC, 'Exhaustive within the stated bounds; the oracle is the schema term the field was made from.'),
 'C21': (SCHED, 'Exhaustive within the stated schedules; the oracle is each operation alone.'),
 'C22': (MC, 'Exhaustive within the stated grids; the oracle is the zoneinfo database.'),
}
NOT_APPLICABLE = {}
NOTES = 'Every check imports scheme from /repo and explores it directly; see DESIGN.md.'
