"""C18: database modules are created, found and deleted without side effects."""
import gc
import os
import sys

import gen
import vf
from citrine.cluster_tools.dbmodule.dbmodule import (
    DbModule, DbModuleRegistry, create_dbmodule, delete_dbmodule,
    find_dbmodules, is_path_dbmodule)
from citrine.cluster_tools.clusterdb import container as clusterdb
from citrine.cluster_tools.dbmodule.dbgroup import DbGroup

NOBODY = 65534


def as_nobody(fn):
    """
    The code under test deletes files: it gets to run without the rights to
    delete anything but what the case created.
    """
    def run(rng):
        if os.geteuid() != 0:
            return fn(rng)
        os.setegid(NOBODY)
        os.seteuid(NOBODY)
        try:
            return fn(rng)
        finally:
            os.seteuid(0)
            os.setegid(0)
    return lambda rng: compiling(run, rng)


def compiling(fn, rng):
    """most users let python keep what it compiled"""
    before = sys.dont_write_bytecode, sys.pycache_prefix
    if rng.random() < .5:
        sys.dont_write_bytecode, sys.pycache_prefix = False, None
    try:
        return fn(rng)
    finally:
        sys.dont_write_bytecode, sys.pycache_prefix = before


def snapshot(root):
    """every file, directory and link below root"""
    found = {}
    for folder, folders, files in os.walk(root):
        for name in folders + files:
            path = os.path.join(folder, name)
            key = os.path.relpath(path, root)
            if os.path.islink(path):
                found[key] = ('link', os.readlink(path))
            elif os.path.isdir(path):
                found[key] = ('dir',)
            else:
                with open(path, 'rb') as reader:
                    found[key] = ('file', reader.read())
    return found


NAMES = ['mod', 'mod2', 'mo', 'a', 'db', 'x.y', '__init__', 'Ünï', 'with space',
         'init', '_', 'mod.db', '.x', 'x.', '.mod.', 'mod ', ' a']
OTHER_FILES = ['keep.txt', 'data', '__init__.pyc', '__init__', '__main__.py',
               'init.py', 'modern', 'modx.db', 'data.index', 'README.mod',
               'a.mod', '.mod', 'dbx', 'Mod.db', '__init__.py.bak', 'x']
SUFFIXES = ['', '.index', '.lock', '.tmp', '.old', '.db', '.x.y']


def write(path, text):
    with open(path, 'wb') as writer:
        writer.write(text.encode())


def difference(got, wanted):
    lost = sorted(set(wanted) - set(got))
    more = sorted(set(got) - set(wanted))
    other = sorted(key for key in set(got) & set(wanted)
                   if got[key] != wanted[key])
    return f'missing {lost}, unexpected {more}, changed {other}'


def populate(rng, top, name):
    """what a module directory may hold besides its init file"""
    for suffix in rng.sample(SUFFIXES, rng.choice([0, 1, 3, 7])):
        if f'{name}{suffix}' != '__init__.py':
            write(os.path.join(top, name + suffix), f'data of {name}{suffix}')
    for other in rng.sample(OTHER_FILES, rng.choice([0, 0, 1, 4])):
        if other != name and not other.startswith(name + '.'):
            write(os.path.join(top, other), f'not of the module {other}')
    if rng.random() < .15:
        # nothing else of others
        write(os.path.join(top, rng.choice(['.keep', '.git', '~', '...'])), '.')
        return
    if rng.random() < .1:
        os.makedirs(os.path.join(top, rng.choice(['.d', 'empty', 'sub'])),
                    exist_ok=True)
        return
    for other in [f'{name}x', f'{name}2.db', f'x{name}', f'{name}-old',
                  f'{name}_backup']:
        if rng.random() < .25:
            write(os.path.join(top, other), f'only similar {other}')
    for other in [name.upper(), name.swapcase() + '.db', '__INIT__.PY']:
        if rng.random() < .15 and not own(name, other):
            write(os.path.join(top, other), f'only spelled like {other}')
    if rng.random() < .15:
        os.makedirs(os.path.join(top, '__pycache__'), exist_ok=True)
        write(os.path.join(top, '__pycache__', f'{name}.pyc'), 'compiled')
    for other in ['sub', f'{name}.d', f'{name}dir']:
        if rng.random() < .15 and other != name:
            os.makedirs(os.path.join(top, other), exist_ok=True)
            write(os.path.join(top, other, name), 'inner')
            write(os.path.join(top, other, '__init__.py'), 'inner')


def own(name, file):
    return file == '__init__.py' or file == name or \
        file.startswith(name + '.')


def after_delete(files, folder, name, remove_empty):
    """the snapshot that must result from deleting a module"""
    left = dict(files)
    for key, entry in files.items():
        if os.path.dirname(key) == folder and entry[0] != 'dir' \
                and own(name, os.path.basename(key)):
            del left[key]
    if remove_empty and not any(os.path.dirname(key) == folder
                                for key in left):
        del left[folder]
    return left


def check_module(ctx, root, before, folder, what):
    """one new module directory with an init file, nothing else changed"""
    got = snapshot(root)
    init = os.path.join(folder, '__init__.py')
    wanted = dict(before)
    wanted[folder] = ('dir',)
    ctx.expect(init in got and got[init][0] == 'file',
               f'{what}: no init file')
    wanted[init] = got[init]
    ctx.expect(got == wanted, lambda: f'{what}: {difference(got, wanted)}')
    text = got[init][1].decode()
    compile(text, 'init', 'exec')
    return text


def way_to(rng, root, folder):
    """the path of the folder in one of its spellings"""
    path = os.path.join(root, folder)
    kind = rng.randrange(5)
    if kind == 0:
        return path + '/'
    if kind == 1:
        return os.path.join(root, '.', folder)
    if kind == 2:
        return os.path.relpath(path)
    if kind == 3:
        return os.path.join(path, '..', os.path.basename(path))
    return path


def files_case(ctx, rng):
    root = os.path.join(ctx.scratch, f'f{ctx.evaluations}-{rng.random()}')
    os.mkdir(root)
    start = os.getcwd()
    os.chdir(root)
    try:
        modules = set()
        os.mkdir(os.path.join(root, 'group'))
        for bystander in ('mod.db', 'group.db', '__init__.py'):
            write(os.path.join(root, bystander), 'outside')
        for _ in range(rng.choice([4, 10])):
            name = rng.choice(NAMES)
            folder = os.path.join('group', name)
            path = os.path.join(root, folder)
            parent = way_to(rng, root, 'group')
            before = snapshot(root)
            exists = os.path.isdir(path)
            op = rng.choice(['create', 'create', 'create', 'delete', 'delete',
                             'destroy', 'all', 'unnamed', 'foreign',
                             'nowhere'])
            ctx.step(op, name, exists, parent, sorted(before))
            if op == 'unnamed':
                args = {'path': parent}
                if rng.random() < .5:
                    args['name'] = rng.choice([None, ''])
                made = create_dbmodule(**args)
                new = os.path.relpath(made, root)
                ctx.expect(new not in before, 'the name was taken')
                ctx.equal(os.path.dirname(new), 'group', 'folder')
                check_module(ctx, root, before, new, 'unnamed module')
                modules.add(os.path.basename(new))
                ctx.count('unnamed')
            elif op == 'nowhere':
                # no directory is there to make the module in
                parent = os.path.join(parent, 'missing',
                                      *rng.choice([(), ('too',)]))
                ctx.raises(OSError, lambda: create_dbmodule(parent, name),
                           'create below nothing')
                ctx.raises(OSError, lambda: create_dbmodule(
                    parent, name, overwrite=True), 'create below nothing')
                after = snapshot(root)
                ctx.expect(after == before, lambda: 'create below nothing: '
                           + difference(after, before))
                ctx.count('below_nothing')
            elif op == 'foreign':
                # a directory that is no module
                if not exists:
                    os.mkdir(path)
                    populate(rng, path, name)
            elif op == 'create':
                overwrite = rng.random() < .5
                discoverable = rng.random() < .5
                args = {'path': parent, 'name': name}
                if overwrite or rng.random() < .3:
                    args['overwrite'] = overwrite
                if not discoverable or rng.random() < .3:
                    args['discoverable'] = discoverable
                what = f'create_dbmodule({args}), exists={exists}'
                if exists and not overwrite:
                    ctx.raises(OSError, lambda: create_dbmodule(**args), what)
                    after = snapshot(root)
                    ctx.expect(after == before, lambda: f'{what}: '
                               + difference(after, before))
                    ctx.count('refused')
                    continue
                made = create_dbmodule(**args)
                ctx.expect(os.path.samefile(made, path),
                           lambda: f'{what}: returned {made}')
                if exists:
                    before = after_delete(before, folder, name, False)
                    ctx.count('overwritten')
                text = check_module(ctx, root, before, folder, what)
                ctx.equal('DISCOVERABLE = True' in text, discoverable, what)
                ctx.expect('DB_MODULE = True' in text, what)
                ctx.count('created')
                modules.add(name)
                populate(rng, path, name)
            elif not exists:
                continue
            elif op == 'all':
                delete_dbmodule(way_to(rng, root, folder), remove_all=True)
                wanted = {key: entry for key, entry in before.items()
                          if key != folder
                          and not key.startswith(folder + '/')}
                got = snapshot(root)
                ctx.expect(got == wanted, lambda: 'remove_all: '
                           + difference(got, wanted))
                modules.discard(name)
                ctx.count('removed_all')
            else:
                remove_empty = rng.random() < .6
                spelled = way_to(rng, root, folder)
                args = {} if remove_empty and rng.random() < .5 else \
                    {'remove_empty': remove_empty}
                what = f'{op} {spelled} {args}'
                if op == 'delete':
                    delete_dbmodule(spelled, **args)
                else:
                    DbModule.destroy(spelled, **args)
                wanted = after_delete(before, folder, name, remove_empty)
                got = snapshot(root)
                ctx.expect(got == wanted,
                           lambda: f'{what}: {difference(got, wanted)}')
                modules.discard(name)
                ctx.count('deleted')
                if folder in got and len([k for k in got if
                                          os.path.dirname(k) == folder]):
                    ctx.count('kept_other_files')
            ctx.saw(op, name, sorted(
                'uuid' if len(os.path.basename(key)) == 36 else key
                for key in snapshot(root)))
        if len(ctx.samples) < 3:
            ctx.sample([repr(op)[:200] for op in ctx.trace[:4]])
    finally:
        os.chdir(start)


LEFT = ['.keep', '.git', '~', '...', '.d/', 'sub/', '__pycache__/x.pyc',
        'keep.txt', '__init__.pyc', '.__init__.py', '{}x', '{}2.db', '.{}',
        '{}_', 'x.{}', '__init__', '__main__.py', '-> nowhere', '-> ../{}',
        '']


def one_left(ctx, rng, left):
    """a module with one thing besides its files"""
    root = os.path.join(ctx.scratch, f'l{ctx.evaluations}-{rng.random()}')
    os.mkdir(root)
    name = rng.choice(['mod', 'a', 'x.y'])
    path = create_dbmodule(root, name)
    for suffix in rng.sample(SUFFIXES, rng.choice([0, 1, 3])):
        write(os.path.join(path, name + suffix), 'data')
    left = left.format(name)
    if left.startswith('->'):
        os.symlink(left[3:], os.path.join(path, 'link'))
    elif left.endswith('/'):
        os.mkdir(os.path.join(path, left))
    elif left:
        os.makedirs(os.path.dirname(os.path.join(path, left)), exist_ok=True)
        write(os.path.join(path, left), 'left')
    remove_empty = rng.random() < .8
    what = f'deleting {name} with {left}, remove_empty={remove_empty}'
    ctx.step(what)
    wanted = after_delete(snapshot(root), name, name, remove_empty)
    delete_dbmodule(path, remove_empty=remove_empty)
    got = snapshot(root)
    ctx.expect(got == wanted, lambda: f'{what}: {difference(got, wanted)}')
    ctx.count('one_left')
    ctx.saw('left', left, remove_empty)


INITS = {
    'yes': ('DB_MODULE = True\n', True),
    'undiscoverable': ('DB_MODULE = True\nDISCOVERABLE = False\n', True),
    'no': ('DB_MODULE = False\n', False),
    'other': ('x = 1\n', False),
    'empty': ('', False),
    'syntax': ('DB_MODULE = True\n)(\n', False),
    'raises': ('DB_MODULE = True\nraise ValueError()\n', False),
    'imports': ('import no_such_module_anywhere\nDB_MODULE = True\n', False),
    'divides': ('DB_MODULE = True\n1 / 0\n', False),
}


def find_case(ctx, rng):
    root = os.path.join(ctx.scratch, f's{ctx.evaluations}-{rng.random()}')
    os.mkdir(root)
    wanted = set()
    unclear = set()
    for number in range(rng.choice([0, 2, 6, 12])):
        name = f'{rng.choice(NAMES)}{number}' if rng.random() < .85 else \
            rng.choice('Mé.') * rng.choice([70, 110]) + str(number)
        path = os.path.join(root, name)
        kind = rng.choice(sorted(INITS) + ['none', 'file', 'nested', 'made'])
        ctx.step(name, kind)
        if kind == 'file':
            write(path, 'DB_MODULE = True\n')
            continue
        if kind == 'made':
            create_dbmodule(root, name)
            wanted.add(path)
            ctx.count('generated')
            continue
        os.mkdir(path)
        if kind == 'nested':
            os.mkdir(os.path.join(path, 'in'))
            write(os.path.join(path, 'in', '__init__.py'), INITS['yes'][0])
        elif kind != 'none':
            write(os.path.join(path, '__init__.py'), INITS[kind][0])
            if kind == 'undiscoverable':
                unclear.add(path)
            elif INITS[kind][1]:
                wanted.add(path)
        ctx.equal(bool(is_path_dbmodule(path)),
                  path in wanted or path in unclear,
                  f'is_path_dbmodule of {kind}')
        ctx.count('looked_at')
    before = snapshot(root)
    got = list(find_dbmodules(root))
    ctx.equal(len(got), len(set(got)), 'modules found twice')
    ctx.equal(sorted(set(got) - unclear), sorted(wanted), 'modules found')
    ctx.expect(snapshot(root) == before, 'looking for modules changed files')
    ctx.count('found', len(wanted))
    ctx.saw('find', sorted(os.path.basename(path) for path in wanted))


def unlinked(root):
    """deleted files below root that this process holds open"""
    found = []
    for number in os.listdir('/proc/self/fd'):
        try:
            path = os.readlink(f'/proc/self/fd/{number}')
        except OSError:
            continue
        if path.startswith(root) and path.endswith(' (deleted)'):
            found.append(os.path.relpath(path, root))
    return sorted(found)


def group_case(ctx, rng):
    """a group of modules with databases in them"""
    root = os.path.join(ctx.scratch, f'g{ctx.evaluations}-{rng.random()}')
    os.mkdir(root)
    for other in rng.sample(OTHER_FILES, 3):
        write(os.path.join(root, other), 'outside')
    for kind in rng.sample(sorted(INITS), 2):
        if not INITS[kind][1]:
            os.mkdir(os.path.join(root, f'no {kind}'))
            write(os.path.join(root, f'no {kind}', '__init__.py'),
                  INITS[kind][0])
    outside = snapshot(root)
    group = DbGroup(root)
    models, kept, counter, entries = {}, set(), 0, {}
    names = ['one', 'two', 'o', 'x.y', 'Ünï']
    try:
        for _ in range(rng.choice([4, 9])):
            name = rng.choice(names)
            op = rng.choice(['create', 'create', 'overwrite', 'unnamed',
                             'write', 'write', 'destroy', 'again'])
            ctx.step(op, name, sorted(models))
            if op == 'create' and name in models:
                ctx.raises(OSError, lambda: group.create_dbmodule(name),
                           'creating an existing module')
                ctx.count('refused')
            elif op in ('create', 'overwrite', 'unnamed'):
                if op == 'unnamed':
                    made = group.create_dbmodule()
                    ctx.expect(made.name not in models, 'name is taken')
                elif op == 'create':
                    made = group.create_dbmodule(name)
                else:
                    made = group.create_dbmodule(name, overwrite=True)
                if op != 'unnamed':
                    ctx.equal(made.name, name, 'name of the module')
                ctx.expect(group.modules[made.name] is made, 'module listed')
                ctx.equal(made.size, 0, 'size of a new module')
                models[made.name] = {}
                ctx.count('group_created')
            elif op == 'write' and models:
                name = rng.choice(sorted(models))
                counter += 1
                module = group.modules[name]
                if rng.random() < .5:
                    with module.db as conn:
                        conn.update(f'id{counter % 5}', counter)
                else:
                    conn = module.open()
                    conn.update(f'id{counter % 5}', counter)
                    conn.close()
                models[name][f'id{counter % 5}'] = counter
                ctx.count('group_written')
            elif op == 'destroy' and models:
                name = rng.choice(sorted(models))
                extra = os.path.join(root, name, 'mine.txt')
                if rng.random() < .5:
                    write(extra, 'mine')
                    outside[name] = ('dir',)
                    outside[os.path.join(name, 'mine.txt')] = \
                        ('file', b'mine')
                else:
                    extra = None
                group.destroy_dbmodule(name)
                del models[name]
                kept.add(name)
                if name in names and extra:
                    names.remove(name)
                ctx.count('group_destroyed')
            elif op == 'again':
                for module in group.modules.values():
                    module.db.close()
                group = DbGroup(root) if rng.random() < .7 else \
                    DbGroup(root, modules=DbGroup.discover(root),
                            discovery=False)
                ctx.count('rediscovered')
            ctx.expect(not unlinked(root), lambda: f'{op}: still open but '
                       f'deleted: {unlinked(root)}')
            ctx.equal(sorted(group.modules), sorted(models), 'modules')
            ctx.equal(sorted(group.databases), sorted(models), 'databases')
            ctx.equal(group.size, sum(map(len, models.values())), 'size')
            for name, model in models.items():
                conn = group.modules[name].open()
                ctx.equal({key: conn.read(key) for key in
                           conn.container.primary.keys()}, model,
                          f'content of {name}')
                conn.close()
            for name in list(entries):
                if name not in models:
                    del entries[name]
            for name, model in models.items():
                module = group.modules[name]
                made = DbModuleRegistry.from_dbmodule(module)
                entry = entries.setdefault(name, made)
                entry.update_from_dbmodule(module)
                for each in (made, entry):
                    ctx.equal((os.path.realpath(each.module_path), each.name,
                               each.size),
                              (os.path.realpath(os.path.join(root, name)),
                               name, len(model)), f'entry of {name}')
                extra = (rng.choice([None, op]), rng.choice([None, 5]),
                         rng.random() < .5, rng.random() < .5)
                if rng.random() < .5:
                    other = clusterdb.DbModuleRegistry.from_dbmodule(
                        module, *extra)
                else:
                    other = clusterdb.DbModuleRegistry.from_dbmodule(
                        module, created=extra[0], size_limit=extra[1],
                        in_migration=extra[2], in_reallocation=extra[3])
                ctx.equal((other.path, other.name, other.created,
                           other.size_limit, other.in_migration,
                           other.in_reallocation),
                          (module.path, name, *extra),
                          f'cluster entry of {name}')
                ctx.count('entries')
            files = {key: entry for key, entry in snapshot(root).items()
                     if key.split(os.sep)[0] not in models}
            wanted = {key: entry for key, entry in outside.items()
                      if key.split(os.sep)[0] not in models}
            ctx.expect(files == wanted, lambda: f'{op}: '
                       + difference(files, wanted))
            ctx.saw('group', op, sorted(map(len, models.values())))
    finally:
        for module in group.modules.values():
            module.db.close()


def blocked_case(ctx, rng):
    """one module of a group cannot be opened"""
    root = os.path.join(ctx.scratch, f'b{ctx.evaluations}-{rng.random()}')
    os.mkdir(root)
    group = DbGroup(root)
    names = rng.sample(['one', 'two', 'o', 'x.y', 'Ünï'], rng.choice([2, 5]))
    for name in names:
        module = group.create_dbmodule(name)
        with module.db as conn:
            conn.update('name', name)
    held = rng.choice(names)
    kind = rng.choice(['open', 'open', 'damaged'])
    for name, module in group.modules.items():
        if name != held or kind == 'damaged':
            module.db.close()
    target = os.path.join(root, held, held)
    if kind == 'damaged':
        os.rename(target, target + '.away')
        write(target, 'no database')
    ctx.step('blocked', names, held, kind)
    before = snapshot(root)
    try:
        DbGroup(root)
    except Exception as error:
        # what it refers to stays; a storage that fails itself gives its lock
        # back only once it is gone, that is not for this code to decide
        failure = error if kind == 'open' else type(error)
    else:
        ctx.expect(False, f'a group with {held} {kind} could be opened')
    changed = {key for key, entry in snapshot(root).items()
               if before.get(key) != entry
               and not key.endswith(('.index', '.lock', '.tmp'))}
    ctx.equal(changed, set(), 'files changed by a group that failed')
    if kind == 'damaged':
        gc.collect()
        os.rename(target + '.away', target)
    else:
        group.modules[held].db.close()
    group = DbGroup(root)
    ctx.equal(sorted(group.modules), sorted(names), 'modules once it works')
    for name, module in group.modules.items():
        with module.db as conn:
            ctx.equal(conn.read('name'), name, f'content of {name}')
            conn.update('failure', repr(failure))
        module.db.close()
    ctx.count('blocked')
    ctx.saw('blocked', len(names), names.index(held), kind)


def single_case(ctx, rng):
    """a module by itself"""
    root = os.path.join(ctx.scratch, f's{ctx.evaluations}-{rng.random()}')
    os.mkdir(root)
    name = rng.choice(['one', 'x.y', 'Ünï', 'with space'])
    path = os.path.join(root, name)
    ctx.raises(FileNotFoundError, lambda: DbModule(path),
               'a module that is not there')
    ctx.equal(snapshot(root), {}, 'files made by looking for a module')
    module = DbModule.create(root, name)
    if rng.random() < .5:
        module.db.close()
        module = DbModule(path)
    ctx.expect(module() is module.db, 'the database of a module')
    ctx.equal((module.name, os.path.realpath(module.path)),
              (name, os.path.realpath(path)), 'name and path of a module')
    number = rng.randrange(4)
    with module.db as conn:
        for each in range(number):
            conn.update(f'k{each}', each)
    ctx.equal(module.size, number, 'size of a module')
    elsewhere = os.path.join(root, 'elsewhere')
    os.mkdir(elsewhere)
    ctx.raises(AttributeError, lambda: setattr(module, 'path', elsewhere),
               'a module that moves')
    ctx.equal(os.path.realpath(module.path), os.path.realpath(path),
              'path of a module after moving it')
    own = DbModuleRegistry(module.path, module.name)
    ctx.equal((own.module_path, own.name, own.size),
              (module.path, module.name, 0), 'a new entry')
    module.db.close()
    before = snapshot(root)
    again = rng.choice([
        lambda: DbModule.create(root, name), lambda: create_dbmodule(
            root, name), lambda: DbGroup(root, False).create_dbmodule(name),
        lambda: DbModule.create(root, 'elsewhere')])
    ctx.raises(IOError, again, 'a module instead of another one')
    ctx.equal(snapshot(root), before, 'files after refusing a module')
    module = DbModule(path)
    with module.db as conn:
        ctx.equal([conn.read(f'k{each}') for each in range(4)],
                  [each if each < number else None for each in range(4)],
                  'content of a module')
    module.db.close()
    ctx.count('single')
    ctx.saw('single', name, number)


def given_case(ctx, rng):
    """groups of modules that are given, with and without discovery"""
    base = os.path.join(ctx.scratch, f'v{ctx.evaluations}-{rng.random()}')
    roots = [os.path.join(base, 'a'), os.path.join(base, 'b')]
    os.mkdir(base)
    made = []
    for root in roots:
        os.mkdir(root)
        group = DbGroup(root)
        made.append({name: group.create_dbmodule(name) for name in
                     rng.sample(['one', 'two', 'three', 'x.y'],
                                rng.randrange(4))})
    for module in made[0].values():
        module.db.close()
    ctx.equal(DbGroup(roots[0], discovery=False).modules, {},
              'modules without discovery')
    ctx.equal(DbGroup(roots[0], False, {}).databases, {},
              'databases without discovery')
    given = dict(made[1])
    every = DbGroup(roots[0], modules=given)
    ctx.equal(sorted(every.modules), sorted({**made[0], **made[1]}),
              f'modules of {sorted(made[0])} with {sorted(made[1])} given')
    for name, module in given.items():
        ctx.expect(every.modules[name] is module, 'a module that was given')
    only = DbGroup(roots[0], discovery=False, modules=given)
    ctx.equal({name: id(module) for name, module in only.modules.items()},
              {name: id(module) for name, module in given.items()},
              'modules given without discovery')
    for group in (every, only):
        ctx.equal(group.databases, {name: module.db for name, module
                                    in group.modules.items()}, 'databases')
    # the databases can be replaced, until they are reset
    own = {'mine': None}
    only.databases = own
    ctx.expect(only.databases is own, 'databases that were set')
    del only.databases
    ctx.equal(sorted(only.databases), sorted(given), 'databases after reset')
    # a group that found nothing makes modules nevertheless
    empty = DbGroup(roots[0], discovery=False)
    new = empty.create_dbmodule('new')
    ctx.equal([(name, module is new) for name, module
               in empty.modules.items()], [('new', True)],
              'modules of a group that looked for none')
    for group in (every, only, empty):
        for module in group.modules.values():
            module.db.close()
    ctx.count('given_modules')
    ctx.saw('given', sorted(made[0]), sorted(made[1]))


def run(ctx):
    ctx.rule = ('random sequences of creating, overwriting and deleting '
                'modules among bystander files, as an unprivileged user; '
                'the whole tree is compared with the expected one after each '
                'call; discovery among good, broken and missing modules; '
                'distinct: (call, files)')
    ctx.require(created=60, refused=10, overwritten=10, deleted=25,
                removed_all=4, unnamed=8, kept_other_files=8,
                looked_at=30, found=6, generated=6,
                group_created=20, group_written=10, group_destroyed=4,
                rediscovered=4, given_modules=10, single=10, one_left=len(LEFT), blocked=6,
                entries=100)
    if os.geteuid() == 0:
        os.setgroups([])
        os.chown(ctx.scratch, NOBODY, NOBODY)
    quick = ctx.quick
    ctx.case(as_nobody(lambda rng: files_case(ctx, rng)), 'files',
             200 if quick else 5000, 15 if quick else 400)
    ctx.case(as_nobody(lambda rng: one_left(
        ctx, rng, LEFT[rng.case_index % len(LEFT)])), 'left',
        len(LEFT) * (3 if quick else 60))
    ctx.case(as_nobody(lambda rng: find_case(ctx, rng)), 'find',
             40 if quick else 1000, 8 if quick else 200)
    ctx.case(as_nobody(lambda rng: single_case(ctx, rng)), 'single',
             25 if quick else 600)
    ctx.case(as_nobody(lambda rng: given_case(ctx, rng)), 'given',
             15 if quick else 300)
    ctx.case(as_nobody(lambda rng: blocked_case(ctx, rng)), 'blocked',
             12 if quick else 300)
    ctx.case(as_nobody(lambda rng: group_case(ctx, rng)), 'group',
             40 if quick else 1000, 10 if quick else 300)
