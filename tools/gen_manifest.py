"""writes MANIFEST.json (run from /verif)"""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 'C01': ('runtime monitor: complete enumeration of meld codes against an independent encoder',
         'every code of a four-player game is decoded (finite space, complete); trusts the independent encoder mon/mj.py'),
 'C02': ('runtime monitor: relation of canonical forms over all codes and offered options',
         'complete over recordable codes; offered options on directed deals'),
 'C03': ('runtime monitor: one-to-one relation of call choices and action indices, checked in the real model masks',
         'complete over recordable codes, sampled over option occurrences'),
 'C04': ('runtime monitor with reference rules engine over simulated games',
         'sampled games and one-discard deals; trusts the reference in mon/ref.py'),
 'C05': ('runtime monitor with independent shape/furiten oracle plus scoring library over scripted wins',
         'sampled; scoring elements are decided by the mahjong library called with reference facts'),
 'C06': ('online tile-ledger conservation monitor over simulated games', 'sampled games; 136-tile ledger is independent of the code'),
 'C07': ('state monitor against a reference ledger, read after the whole log was processed', 'sampled games'),
 'C08': ('offline trace checker: decision sequence against log order', 'sampled games incl. degenerate rounds'),
 'C09': ('offline trace checker: event tokens against the public event log, one-to-one relation', 'sampled plus directed for every call choice'),
 'C10': ('offline trace checker: marked options against recorded actions', 'sampled plus directed'),
 'C11': ('runtime monitor with reference rules for riichi and quads', 'sampled plus directed'),
 'C12': ('runtime monitor: all game types and disconnect positions', 'all 256 type values, sampled contents'),
 'C13': ('metamorphic runtime monitor: digests under reordering, repetition, other processes and failed logs', 'sampled'),
 'C14': ('runtime monitor: rows, masks and labels against the reference replay', 'sampled games, all four models'),
 'C15': ('runtime monitor: every tensor cell against the reference situation', 'sampled games, all four models'),
 'C16': ('runtime monitor: batch rows against single-round rows; sampled rows identified by their scores', 'sampled batches'),
 'C17': ('runtime monitor: scores, loss and gradient recomputed independently, batch-composition differential', 'sampled batches and parameters'),
 'C18': ('metamorphic runtime monitor: one-change pairs under generic parameters', 'sampled decisions; generic parameters make coincidental equality improbable'),
 'C19': ('non-interference runtime monitor on twin games', 'sampled decisions; hidden tiles re-dealt within possible logs'),
 'C20': ('exactly-once monitor over real data-loader passes with faulty files', 'sampled directories, child process watches for exits'),
 'C21': ('crash injection with recovery monitor on real training runs', 'sampled kill points: bytes of the file and every file operation'),
 'C22': ('state-digest monitor around the real validation routine', 'sampled directories and models'),
 'C23': ('runtime monitor of the real training loop with an independent replica of the updates', 'sampled runs of all nine model names'),
 'C24': ('runtime monitor: solver against a table-driven exact distance', 'sampled hands of all sizes, biased to hard shapes'),
 'C25': ('file-system and request monitor on the real scripts in a contained scratch tree', 'sampled directories, pages and response outcomes'),
 'C26': ('process-state, file-tree and live-object monitors around real processing, loading, validation and training', 'sampled directories and runs; growth is judged against the largest game'),
 'C27': ('forced thread switches, alternated passes and evaluations, and processes held at their checkpoint files, each compared with the same work done alone', 'sampled switches and timings; runs in one directory have different model names'),
 'C28': ('save-and-restore differential on trained models, scan of all tensors reachable from a model', 'sampled trainings and batches; equal up to rounding'),
 'C29': ('fault injection into consistent logs with a monitor of the verdict', 'sampled logs; 41 kinds of single contradictions at sampled places'),
 'C30': ('log and console monitor against recorded calls, losses, rates and files of real training runs', 'sampled runs, kill points at checkpoint files, sampled arguments'),
}
m = {'version': 1,
     'setup_cmd': '/opt/venv/bin/python -c "import torch, mahjong, numpy"',
     'checks': [{'property': p,
                 'quick_cmd': './run.py %s --tier quick' % p,
                 'thorough_cmd': './run.py %s --tier thorough' % p,
                 'technique': t, 'level': 'exploration', 'level_note': n} for p, (t, n) in sorted(T.items())],
     'not_applicable': [],
     'notes': 'no hooks in /repo: everything is observed from outside through imports, wrappers and child processes'}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
