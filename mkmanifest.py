"""Writes MANIFEST.json from the table below."""
import json
T = {
 'C01': ('reference-model monitor over swept and random bit operations', 'all widths 1-64, schemes and orders, every index read and written; patterns of contents are sampled'),
 'C02': ('reference-model monitor over swept and random range operations', 'all widths, schemes and orders; every range for small widths, sampled ranges and values above'),
 'C03': ('invariant monitor after every step of random operation histories', 'sampled histories and values with every boundary value; widths swept'),
 'C04': ('reference-model monitor over set/clear/test operations', 'all widths, schemes, orders and indices; ranges swept for small widths and sampled above'),
 'C05': ('history monitor against a four-group model of the word', 'sampled histories and boundary values'),
 'C06': ('recorded memory histories with unique values checked against a map', 'sampled histories plus complete fills of every address'),
 'C07': ('recorded register histories checked against a map', 'sampled histories over several live sets; one listed known finding'),
 'C08': ('monitor over the whole name/number domain, fresh and after use', 'all names and numbers; refused values are sampled'),
 'C09': ('encoding monitor against transcribed PRM bit patterns', 'whole legal operand domain of all 64 mnemonics; trusts the transcription in vlib/gold.py'),
 'C10': ('refusal monitor over boundary and random illegal operands', 'whole legal domain, sampled illegal operands at and beyond each boundary'),
 'C11': ('table-consistency monitor over observed encodings and printed map', 'whole tables and operand domains; trusts the transcription in vlib/gold.py'),
 'C12': ('per-column reference reader monitoring random cards and layouts', 'sampled lines and layouts'),
 'C13': ('per-column reference reader monitoring random ARGUS cards', 'sampled card images, every column-1 character'),
 'C14': ('reference expansion of random include trees compared card by card', 'sampled trees up to 80 levels and 12000 cards; missing-file faults injected'),
 'C15': ('reference symbol-table model compared after every build', 'scripted corners and sampled source trees'),
 'C16': ('query monitor against set comprehensions with table snapshots', 'sampled tables; trusts the fuzzywuzzy scorer'),
 'C17': ('registry histories compared with a reference registry at each step', 'sampled histories'),
 'C18': ('offline checker of tool output against a recount of the cards', 'sampled sources and options, in-process and real processes'),
 'C19': ('offline checker of listings and symbol reports against the model', 'sampled sources and options; trusts the fuzzywuzzy scorer'),
 'C20': ('offline checker of generated lines and pages against the layout', 'sampled arguments and files with all refusal kinds'),
 'C21': ('audit-hook monitor of file/process/network events and tree diffs', 'sampled sources, options and missing-file faults; sees Python-level operations, and for real processes the directory tree only'),
 'C22': ('monitor of the whole published table against its transcription', 'all 64 codes; trusts the transcription in vlib/gold.py'),
 'C24': ('printed texts parsed back and compared with a map after random histories', 'sampled histories over several live banks, groups and sets of both widths'),
 'C25': ('differential monitor under a seeded line/bytecode-level thread scheduler', 'sampled job sets and interleavings at line or bytecode boundaries of the code under test'),
 'C26': ('metamorphic monitor of paired quiet and verbose runs', 'sampled sources and options'),
 'C27': ('metamorphic monitor of paired runs with and without includes', 'sampled source trees, tools and options'),
 'C28': ('crash and write-fault injection with directory-tree monitors', 'sampled sources and kill points (lines of executed code), sizes at which writes fail'),
 'C23': ('differential monitor: isolated vs. shared-process histories', 'sampled job sets, orders and interleavings'),
}
json.dump({
 'version': 1,
 'setup_cmd': 'python3 -m py_compile check.py vlib/*.py && rm -rf __pycache__ vlib/__pycache__',
 'checks': [{
   'property': k, 'quick_cmd': 'python3 check.py %s' % k,
   'thorough_cmd': 'python3 check.py %s --thorough' % k,
   'evidence_file': 'evidence/%s.json' % k,
   'technique': 'runtime monitoring: ' + t, 'level': 'exploration',
   'level_note': 'Held on the executions observed: %s.' % n} for k, (t, n) in sorted(T.items())],
 'not_applicable': [],
 'notes': 'No hooks in /repo: every monitor observes public behaviour.'},
 open('MANIFEST.json', 'w'), indent=1)
