"""Prints the table of planted bugs for DESIGN.md."""
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
print('| bug | caught by | what it breaks | needs |\n|---|---|---|---|')
for d in sorted(glob.glob(os.path.join(HERE, 'seeded', '*'))):
    m = json.load(open(os.path.join(d, 'meta.json')))
    print('| {} | {} | {} | {} |'.format(os.path.basename(d), m['property'], m['what_it_breaks'].replace('|', '/'), m['needs'].replace('|', '/')))
