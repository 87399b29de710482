"""
Writes further files with the pinned version of the code (given as folder):
python fixtures.py FOLDER. Not run by any check, the files are committed.
"""
import json
import os
import random
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, sys.argv[1])
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, f'{HERE}/lib')

import transaction  # noqa: E402
import ZODB  # noqa: E402
from persistent.mapping import PersistentMapping  # noqa: E402
from ZODB.FileStorage import FileStorage  # noqa: E402

import gen  # noqa: E402
from citrine.persistence import DbContainer, DbMetadata  # noqa: E402
from citrine.storage.container import Container  # noqa: E402
from citrine.storage.group import Group  # noqa: E402

rng = random.Random(7)


def value(key):
    return rng.choice([None, 0, False, '', [], {}, 1.5, 'é', [1, None],
                       {'id': key, 'n': [{'a': 1}]}, f'value of {key}'])


def write(name, root):
    path = f'{HERE}/fixtures/{name}.fs'
    for suffix in ('', '.index', '.lock', '.tmp'):
        if os.path.exists(path + suffix):
            os.remove(path + suffix)
    db = ZODB.DB(FileStorage(path))
    conn = db.open(transaction.TransactionManager())
    for key, found in root.items():
        conn.root()[key] = found
    conn.transaction_manager.commit()
    db.close()
    for suffix in ('.index', '.lock', '.tmp'):
        if os.path.exists(path + suffix):
            os.remove(path + suffix)


with open(f'{HERE}/fixtures/stored.json') as reader:
    stored = json.load(reader)
pool = gen.ids(rng, 160) + [form * count for form in gen.FORMS
                            for count in (1, 90)]
pool = sorted(set(pool))
sizes = [{0: 5000, 3: 40, 6: 700}, {0: 900, 1: 900}, {0: 3, 22: 5000}]
groups, contents = [], []
for number, custom in enumerate(sizes):
    # the second group is made by size, the others by sizes of each
    group = Group.new(5, max_collection_size=180) if number == 1 else \
        Group.new(custom=custom, max_collection_size=[60, 0, 100][number],
                  size=[7, 0, 23][number])
    content = {key: value(key) for key in pool if rng.random() < .5}
    for key, found in content.items():
        group.insert(key, found)
    groups.append(group)
    contents.append(content)
container = Container(groups[0], tuple(groups[1:]))
write('many', {'container': container})
stored['many'] = {'capacity': groups[0].max_size, 'strict': False,
                  'groups': contents}
with open(f'{HERE}/fixtures/stored.json', 'w') as writer:
    json.dump(stored, writer, indent=1)

legacy = DbContainer(PersistentMapping(
    {number: PersistentMapping() for number in range(7)}))
content = {key: value(key) for key in pool if rng.random() < .5}
for key, found in content.items():
    legacy.write(key, found)
write('legacy', {'container': legacy, 'meta': DbMetadata(size=5, cache=9)})
with open(f'{HERE}/fixtures/legacy.json', 'w') as writer:
    json.dump({'containers': 7, 'objects': content, 'missing': [
        key for key in pool if key not in content]}, writer, indent=1)
