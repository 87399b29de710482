"""C32: threads that share an engine, packages or classes do not notice."""
import json
import logging
import os
import random
import shutil
import sys
import threading
import time
from collections import Counter

import as2
import as2spec as spec
import c01
import c02
import c03
import c04
import c05
import c06
import c07
import c08
import c09
import c10
import c13
import c14
import c15
import c17
import c21
import c24
import c27
import c31
import vf
from pyld.jsonld import JsonLdError
from activitystreams import create_engine
from citrine.cluster_tools.dbmodule.dbgroup import DbGroup
from jsonld import JsonLdPackage
from jsonld.docloader import CachedRequestsJsonLoader, RequestsJsonLoader
from jsonld.engine.jsonld_engine import JsonLdEngine
from jsonld.base import ContextualProperty, PropertyAwareObject

ENGINES = []
ROOT = os.path.join(os.environ.get('VERIF_REPO', '/repo'), '')


class Boom(Exception):
    pass


class Quiet:
    def count(self, *args):
        pass


# how often a thread was stopped for long at a line
HELD = Counter()
# threads that run at the same time
RUNNING = [1]


class Schedule:
    """
    Lets other threads go on in the middle of the code, and sees where they
    do.  A thread sleeps at a line for a moment, or for so long that the others
    get far: rather where that did not happen often.
    """

    def __init__(self, what, seed, share, held):
        self.what = what
        self.seed = seed
        self.share = share
        self.held = held
        self.last = None
        self.switches = 0
        self.places = set()

    def tracer(self, number):
        rng = random.Random(f'{self.seed} {number}')
        chance, sleep = rng.random, time.sleep

        def line(frame, event, arg):
            if event == 'line':
                if self.last != number:
                    if self.last is not None:
                        self.switches += 1
                        self.places.add((frame.f_code.co_name,
                                         frame.f_lineno))
                    self.last = number
                place = self.what, frame.f_code, frame.f_lineno
                if chance() < self.share:
                    sleep(chance() * .0005)
                elif HELD[place] < self.held and chance() < .4:
                    HELD[place] += 1
                    sleep(chance() * .02)
            return line

        def call(frame, event, arg):
            if frame.f_code.co_filename.startswith(ROOT):
                return line
        return call


def together(ctx, rng, what, build):
    """
    Runs the jobs one after the other and, made anew, in threads of their own;
    what fails without other threads is none of the business of this check
    """
    seed = rng.random()
    try:
        for job in build(ctx, random.Random(seed)):
            job()
    except vf.Stuck:
        raise
    except Exception as error:
        ctx.count('failing_alone')
        ctx.sample(f'{what} fails without threads: {error!r}'[:300])
        return
    ctx.count(what)
    jobs = build(ctx, random.Random(seed))
    schedule = Schedule(what, rng.random(), rng.choice([0, .001, .01, .05]),
                        rng.choice([0, 3, 5] if ctx.quick else
                                   [0, 20, 60]))
    barrier = threading.Barrier(len(jobs))
    errors = []

    def run(number, job):
        try:
            barrier.wait(60)
            sys.settrace(schedule.tracer(number))
            try:
                job()
            finally:
                sys.settrace(None)
        except BaseException as error:
            errors.append((number, error))
    threads = [threading.Thread(target=run, args=each, daemon=True)
               for each in enumerate(jobs)]
    interval = sys.getswitchinterval()
    sys.setswitchinterval(rng.choice([1e-6, 1e-5, 1e-4]))
    RUNNING[0] = len(jobs)
    try:
        for thread in threads:
            thread.start()
        for thread in threads:
            thread.join(100)
            if thread.is_alive():
                raise vf.Violation('threads never end')
    finally:
        sys.setswitchinterval(interval)
        RUNNING[0] = 1
    ctx.count('switches', schedule.switches)
    ctx.peak('threads', len(jobs))
    for place in schedule.places:
        ctx.saw('switch', *place)
    for number, error in errors:
        raise error


COMPARED = [0]


def agree(condition, message):
    COMPARED[0] += 1
    if not condition:
        raise vf.Violation(message() if callable(message) else message)


# ---- databases and containers --------------------------------------------
# what the other checks do in one thread, each with objects of its own
OTHERS = [
    c01.memory_case, c01.persisted_case, c02.one_case, c03.memory_case,
    c03.container_case, c04.memory_case, c04.database_case, c05.one_case,
    c05.connection_case, c06.one_case, c06.small_case, c07.steps_case,
    c07.fault_case, c08.container_case, c09.one_case, c10.one_case,
    c13.memory_case, c14.nested_case, c15.one_case, c17.container_case,
    c17.several_case]


class Own(vf.Ctx):
    """the context of a thread, that only knows its own case"""

    def __init__(self, parent):
        super().__init__('C32-own', parent.tier, parent.seed)
        self.parent = parent

    def violation(self, message, key=None, witness=None):
        raise vf.Violation(message)

    def finish(self):
        COMPARED[0] += self.counters.get('oracle_checks', 0)
        shutil.rmtree(self.scratch, ignore_errors=True)


def repeatable(ctx, case, seed, index):
    def job():
        rng = random.Random(seed)
        rng.case_index = index
        own = Own(ctx)
        try:
            case(own, rng)
        finally:
            own.finish()
    return job


def databases(ctx, rng, first):
    """each thread has databases, containers or collections of its own"""
    jobs = []
    count = rng.choice([2, 2, 3, 4])
    alike = rng.random() < .3
    case = OTHERS[first % len(OTHERS)]
    while len(jobs) < count:
        jobs.append(repeatable(ctx, case, rng.random(), rng.randrange(1000)))
        name = f'{case.__module__}.{case.__name__}'
        ctx.step(name)
        ctx.count(f'own_{name}')
        if not alike:
            case = rng.choice(OTHERS)
    return jobs


def modules(ctx, rng):
    """groups of database modules, each thread with a directory of its own"""
    def job_of(seed, root):
        def job():
            own = random.Random(seed)
            group, model = DbGroup(root), {}
            for number in range(own.choice([3, 6])):
                name = own.choice(['a', 'b', 'c'])
                op = own.choice(['create', 'write', 'write', 'again',
                                 'destroy'])
                if op == 'create' or name not in model:
                    if name in model:
                        continue
                    group.create_dbmodule(name)
                    model[name] = {}
                elif op == 'write':
                    key, value = f'k{own.randrange(3)}', own.random()
                    with group.modules[name].db as conn:
                        conn.update(key, value)
                    model[name][key] = value
                elif op == 'destroy':
                    group.destroy_dbmodule(name)
                    del model[name]
                else:
                    for module in group.modules.values():
                        module.db.close()
                    group = DbGroup(root)
                agree(set(group.modules) == set(model),
                      lambda: f'modules {set(group.modules)}, not '
                              f'{set(model)} after {op}')
                agree(sorted(os.listdir(root)) == sorted(model),
                      lambda: f'{os.listdir(root)} for {set(model)}')
                for name, content in model.items():
                    module = group.modules[name]
                    agree(os.path.realpath(module.path) == os.path.realpath(
                        os.path.join(root, name)), 'a path')
                    with module.db as conn:
                        got = {f'k{n}': conn.read(f'k{n}') for n in range(3)
                               if conn.read(f'k{n}') is not None}
                    agree(got == content, lambda: f'{name} has {got}, not '
                                                  f'{content}')
                agree(group.size == sum(map(len, model.values())),
                      'the size of a group')
            for module in group.modules.values():
                module.db.close()
        return job
    return [job_of(rng.random(), ctx.folder())
            for _ in range(rng.choice([2, 3]))]


# ---- documents -----------------------------------------------------------
def one_job(engine, seed, tasks):
    def job():
        rng = random.Random(seed)
        for node, doc, text in tasks:
            if node is None:
                try:
                    engine.from_json(doc)
                except Exception:
                    continue
                agree(False, f'{doc} could be loaded')
            how = rng.randrange(4)
            if how == 0:
                obj = engine.from_json(doc)
            elif how == 1:
                obj = engine[json.dumps(doc)]
            elif how == 2:
                obj = engine[[json.dumps(doc)]][0]
            else:
                obj = c21.make(rng, engine, node, Quiet())
            found = spec.differ(engine, obj, node, node.cls,
                                node.context) if how != 3 else None
            agree(not found, lambda: f'with other threads: {found}')
            if how != 3:
                got = obj.json()
                agree(got == text, lambda: f'with other threads: {got}, '
                                           f'alone: {text}')
            else:
                obj.json()
            again = json.loads(obj.json(include=['type', 'id']))
            agree(set(again) <= {'@context', 'type', 'id'},
                  lambda: f'with other threads: {again}')
    return job


def bad(rng, doc):
    own = {'@context': as2.NS, 'type': 'Note'}
    return rng.choice([
        {**doc, 'type': 'Nonsense'}, 'no json', [],
        {**own, 'published': 'yesterday'}, {**own, 'id': 5},
        {**own, 'attributedTo': {'type': 'Link', 'href': 5}}])


def documents(ctx, rng):
    engine = ENGINES[0]
    jobs = []
    for number in range(rng.choice([2, 3, 5])):
        tasks = []
        for _ in range(rng.choice([3, 6])):
            made = spec.Gen(rng, rng.choice([0, 1, 2]))
            node = made.node()
            doc = made.document(node)
            if rng.random() < .2:
                tasks.append((None, bad(rng, doc), None))
                ctx.count('refused')
                continue
            text = engine.from_json(doc).json()
            tasks.append((node, doc, text))
            ctx.count('documents_loaded')
        ctx.step(number, [json.dumps(doc)[:600] for _, doc, _ in tasks])
        jobs.append(one_job(engine, rng.random(), tasks))
    ctx.sample({'threads': len(jobs), 'of_the_last': [
        json.dumps(doc)[:300] for _, doc, _ in tasks]})
    return jobs


def engines(ctx, rng):
    """engines made while others load documents"""
    engine = ENGINES[0]
    made = spec.Gen(rng, 1)
    jobs = []
    for _ in range(2):
        tasks = []
        for _ in range(6):
            node = made.node()
            doc = made.document(node)
            tasks.append((node, doc, engine.from_json(doc).json()))
        jobs.append(one_job(engine, rng.random(), tasks))

    def create():
        mine = create_engine()
        one_job(mine, 1, tasks)()
        for name in spec.CLASSES:
            agree(getattr(mine, name) is not getattr(engine, name),
                  f'{name} is shared by two engines')
    jobs += [create] * rng.choice([1, 2])
    return jobs


# ---- packages ------------------------------------------------------------
def packages(ctx, rng):
    """different packages made of the same classes at the same time"""
    objects, props = c31.vocabulary()
    ns = 'https://x.example'

    def job_of(seed):
        def job():
            own = random.Random(seed)
            for _ in range(own.choice([2, 5])):
                links = {n: own.sample(range(3), own.randrange(4))
                         for n in range(3)}
                package = JsonLdPackage(
                    ns, own.sample(objects, 3), own.sample(props, 3),
                    {f'{ns}#C{n}': [f'{ns}#p{p}' for p in found]
                     for n, found in links.items()})
                for n in range(3):
                    cls = package[f'{ns}#C{n}']
                    wanted = {f'p{p}' for m in range(n + 1)
                              for p in links[m]} | {'__namespace__'}
                    agree(set(cls.__get_properties__()) == wanted,
                          lambda: f'C{n} of {links} has '
                                  f'{cls.__get_properties__()}')
                    obj = cls()
                    for name in sorted(wanted - {'__namespace__'}):
                        value = own.random()
                        setattr(obj, name, value)
                        agree(getattr(obj, name) == value,
                              f'{name} of C{n} is not what was set')
                    agree(type(obj.clone()) is package[f'{ns}#C0'],
                          'a class of another package')
        return job
    return [job_of(rng.random()) for _ in range(rng.choice([2, 4]))]


def firsts(ctx, rng):
    """classes used for the first time by several threads at once"""
    objects, props = c31.vocabulary()
    ns = 'https://x.example'
    uses = []
    for _ in range(10):
        links = {n: rng.sample(range(3), rng.randrange(4)) for n in range(3)}
        package = JsonLdPackage(ns, objects, props, {
            f'{ns}#C{n}': [f'{ns}#p{p}' for p in found]
            for n, found in links.items()})
        engine = JsonLdEngine(package)
        made = []
        for n in range(3):
            wanted = {f'p{p}' for m in range(n + 1)
                      for p in links[m]} | {'__namespace__'}
            # classes of one's own
            more = {f'q{number}' for number in range(rng.choice([0, 1, 5]))}
            base = rng.choice([package[f'{ns}#C{n}'],
                               getattr(engine, f'C{n}')])
            own = type('Own', (base,), {
                name: property(lambda self: 1) for name in more})
            below = type('Below', (own,), {'r': property(lambda self: 2)})
            made += [(base, wanted), (own, wanted | more),
                     (below, wanted | more | {'r'})]
        prop = rng.choice(props)
        made.append((type('OwnProperty', (prop,), {
            'z': property(lambda self: 3)}), 'z'))
        rng.shuffle(made)
        uses.append(made)

    arrived = [0] * len(uses)

    def job_of(seed):
        def job():
            own = random.Random(seed)
            for number, made in enumerate(uses):
                # wait until the others are as far
                arrived[number] += 1
                deadline = time.monotonic() + .5
                while arrived[number] < RUNNING[0] \
                        and time.monotonic() < deadline:
                    pass
                for cls, wanted in made if own.random() < .7 \
                        else own.sample(made, len(made)):
                    if wanted == 'z':
                        agree(cls().__property_name__ == 'z',
                              f'the name of the property of {cls}')
                        continue
                    obj = cls()
                    agree({name for name, _ in obj} == wanted,
                          lambda: f'{cls} has {list(obj)}, not {wanted}')
        return job
    return [job_of(rng.random()) for _ in range(rng.choice([2, 3, 4]))]


# ---- the web -------------------------------------------------------------
def loaders(ctx, rng):
    """documents fetched by several threads, with common or own loaders"""
    as2.WEB.clear()
    pages = {}
    for _ in range(rng.choice([3, 8])):
        url = c27.fresh_url(rng)
        kind = rng.choice(['document', 'document', 'alternate', 'context',
                           'missing', 'broken', 'error'])
        body = {'name': url}
        wanted = {'contentType': 'application/ld+json', 'contextUrl': None,
                  'documentUrl': url, 'document': body}
        if kind == 'document':
            as2.WEB[url] = as2.Page(body)
        elif kind == 'alternate':
            as2.WEB[url] = as2.Page(body, content_type='text/html', headers={
                'Link': f'<{url}/other>; rel="alternate"; '
                        f'type="application/ld+json"'})
            wanted['documentUrl'] = f'{url}/other'
        elif kind == 'context':
            as2.WEB[url] = as2.Page(body, content_type='application/json',
                                    headers={'Link': f'<{url}/c>; rel="http'
                                             '://www.w3.org/ns/json-ld#'
                                             'context"'})
            wanted.update(contextUrl=f'{url}/c',
                          contentType='application/json')
        else:
            wanted = None
            if kind != 'missing':
                as2.WEB[url] = as2.Page('{', 200 if kind == 'broken' else 500)
        pages[url] = wanted
        ctx.count(f'page_{kind}')
    shared = [cls(secure=secure) for secure in (True, False)
              for cls in (RequestsJsonLoader, CachedRequestsJsonLoader)]

    def job_of(seed):
        def job():
            own = random.Random(seed)
            for _ in range(12):
                url = own.choice(sorted(pages))
                loader = own.choice(shared[::2] if own.random() < .5
                                    else shared)
                if own.random() < .3:
                    loader = type(loader)(secure=loader.secure)
                wanted = pages[url]
                try:
                    got = loader(url)
                except JsonLdError:
                    agree(wanted is None or (loader.secure and
                                             url.startswith('http:')),
                          lambda: f'{url} was refused')
                    continue
                if url.startswith('http:') and loader.secure:
                    agree(isinstance(loader, CachedRequestsJsonLoader),
                          lambda: f'{url} was opened')
                agree(got == wanted, lambda: f'{url} gave {got}')
        return job
    return [job_of(rng.random()) for _ in range(rng.choice([2, 3, 5]))]


def links(ctx, rng):
    """links opened by several threads"""
    engine = ENGINES[0]
    web = c24.Web(rng)
    targets = {}
    for _ in range(4):
        url = web.url()
        node = None
        if rng.random() < .8:
            node = web.node(url=url)
            web.put(url, node)
        targets[url] = node

    def job_of(seed):
        def job():
            own = random.Random(seed)
            for _ in range(6):
                cls, name = own.choice(c24.HOLDERS)
                url = own.choice(sorted(targets))
                node = targets[url]
                obj = engine.from_json({
                    '@context': as2.NS, 'type': cls,
                    'id': 'https://h.example/1', name: url})
                for _ in range(own.choice([1, 2])):
                    got = getattr(obj, name)
                    if node is None:
                        agree(type(got) is engine.Link and got.href == url,
                              lambda: f'{name} of a {cls}: {got}')
                    else:
                        found = spec.differ(engine, got, node,
                                            f'{cls}.{name}', node.context)
                        agree(not found, found)
                    agree(json.loads(obj.json()).get(name) == url,
                          lambda: f'{name} of a {cls} in {obj.json()}')
        return job
    return [job_of(rng.random()) for _ in range(rng.choice([2, 3]))]


# ---- contexts ------------------------------------------------------------
def aware_class(names):
    def getter(name):
        def fget(self):
            return (name, self.stored.get(name))
        return fget

    def setter(name):
        def fset(self, value):
            self.stored[name] = value
        return fset
    prop = ContextualProperty(getter(None), setter(None))
    for name in names:
        prop.getter_context(name)(getter(name))
        prop.setter_context(name)(setter(name))

    class Aware(PropertyAwareObject):
        p = prop

        def __init__(self):
            super().__init__()
            self.stored = {}
    return Aware


def contexts(ctx, rng):
    """objects of one class in different contexts at the same time"""
    names = ['A', 'B', 'C']
    cls = aware_class(names)

    def job_of(seed):
        def job():
            own = random.Random(seed)
            obj, model = cls(), {}

            def use(context):
                for _ in range(own.choice([1, 3])):
                    value = own.random()
                    if own.random() < .5:
                        obj.p = value
                        model[context] = value
                    got = obj.p
                    agree(got == (context, model.get(context)),
                          lambda: f'in context {context}: {got}')

            def inside(context, depth):
                use(context)
                if depth == 0:
                    return
                for _ in range(2):
                    name = own.choice(names)
                    try:
                        with obj.switch_context(name):
                            inside(name, depth - 1)
                            if own.random() < .3:
                                raise Boom
                    except Boom:
                        pass
                    use(context)
            inside(None, 4)
        return job
    return [job_of(rng.random()) for _ in range(rng.choice([2, 3, 6]))]


def run(ctx):
    ctx.rule = ('2-6 threads that load and write documents with one engine, '
                'open links, share loaders, make objects, engines and '
                'packages of the same classes, use classes for the first '
                'time and objects of one class in different contexts, and '
                'run the cases of other checks with databases, containers '
                'and collections of their own, preempted at random lines of '
                'the code; every result is the one without other threads, '
                'and what already fails alone is left out; distinct: lines '
                'at which another thread went on')
    ctx.assumptions = ['one thread per object']
    ctx.require(documents=8, engines=1, packages=8, contexts=8,
                firsts=3, loaders=5, links=4, modules=3, databases=15, switches=5000)
    logging.disable(logging.CRITICAL)
    as2.prepare_context()
    ENGINES[:] = [as2.engine()]
    quick = ctx.quick
    for build, number, more in (
            (documents, 15, 400), (packages, 10, 300), (firsts, 5, 200),
            (modules, 6, 150), (loaders, 14, 300), (links, 6, 200), (contexts, 15, 500),
            (engines, 1, 12)):
        ctx.case(lambda rng: together(ctx, rng, build.__name__, build),
                 build.__name__, number if quick else more,
                 None if quick else 400)
    ctx.case(lambda rng: together(
        ctx, rng, 'databases', lambda *args: databases(
            *args, rng.case_index)), 'databases',
        len(OTHERS) if quick else len(OTHERS) * 25,
        None if quick else 900)
    ctx.count('results_compared', COMPARED[0])
    ctx.count('lines_held', len({place[1:] for place in HELD}))
