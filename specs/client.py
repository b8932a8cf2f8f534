"""Client code analysed together with the package: user-written classes and reference oracles."""
from fauxdoc.emitter import Emitter
from fauxdoc.mixins import RandomMixin, RandomWithChildrenMixin, ChildrenMixin, ItemsMixin
from fauxdoc.dtrange import DateOrTimeRange


def document(fields):
    doc = {}
    for field in fields:
        value = field()
        if not field.hide:
            doc[field.name] = value
    return doc


def document_of(names, fields):
    doc = {}
    for name, field in zip(names, fields):
        value = field()
        if not field.hide:
            doc[name] = value
    return doc


class Dice(RandomMixin, Emitter):
    """A user's own random emitter."""

    def emit(self):
        return self.rng.random()

    def emit_many(self, number):
        return [self.rng.random() for _ in range(number)]


class Pair(RandomWithChildrenMixin, Emitter):
    """A user's own composite emitter."""

    def __init__(self, left, right, rng_seed=None):
        super().__init__(children={'left': left, 'right': right}, rng_seed=rng_seed)

    def emit(self):
        return (self.emitters['left'](), self.emitters['right'](), self.rng.random())

    def emit_many(self, number):
        return [self.emit() for _ in range(number)]


class Holder(ChildrenMixin, Emitter):
    """A user's own composite without randomness."""

    def __init__(self, child):
        super().__init__(children={'child': child})

    def emit(self):
        return self.emitters['child']()

    def emit_many(self, number):
        return self.emitters['child'](number)


class MyRange(DateOrTimeRange):
    """A user's own kind of range."""


def pairs(mapping):
    return [(key, mapping[key]) for key in mapping]


def registry(*groups):
    fields = {}
    for group in groups:
        for field in group:
            fields[field.name] = field
    return fields


def all_of(fields):
    return dict(fields)


def hidden_of(fields):
    return {name: field for name, field in fields.items() if field.hide}


def public_of(fields):
    return {name: field for name, field in fields.items() if not field.hide}


def keys(mapping):
    return [key for key in mapping]


def generate_all(fields):
    for field in fields:
        field()


def gathered(fields):
    out = []
    for field in fields:
        value = field.previous
        if value is None:
            continue
        if isinstance(value, (list, tuple)):
            for part in value:
                out.append(part)
        else:
            out.append(value)
    return out


def copied_list(fields):
    out = gathered(fields)
    if len(out) == 0:
        return None
    return out


def copied_text(fields, sep):
    return sep.join([str(value) for value in gathered(fields)])


def plain_one(value):
    return ('plain', value)


def random_one(value, rng):
    return ('random', value, rng)


def random_kwonly(value, *, rng=None):
    return ('kwonly', value, rng)


def takes_any(*args, **kwargs):
    return ('any', args, kwargs)


def plain_two(a, b):
    return ('plain', a, b)


def random_two(a, b, rng):
    return ('random', a, b, rng)


def takes_any_rng(rng, **kwargs):
    return ('any', kwargs, rng)


class Callback:
    """A callable object that wants a generator."""

    def __call__(self, value, rng):
        return ('object', value, rng)


def map_one(function, values, extra):
    return [function(value, **extra) for value in values]


def map_two(function, number, lefts, rights, extra):
    return [function(a=lefts[i], b=rights[i], **extra) for i in range(number)]


def ask_all(emitters):
    return takes_any(**{name: emitter() for name, emitter in emitters.items()})


def first(sequence):
    return sequence[0]


def last(sequence):
    return sequence[-1]


def stream(factory):
    while True:
        for item in factory():
            yield item


def take(iterator, number):
    return [next(iterator) for _ in range(number)]


def words_of(lengths, chars):
    out = []
    at = 0
    for length in lengths:
        out.append(''.join(chars[at:at + length]))
        at += length
    return out


def same_number(value, number):
    return [value for _ in range(number)]


def empties(number):
    return ['' for _ in range(number)]


def each_word(lengths, alphabet):
    return [''.join(alphabet(length)) for length in lengths]


def text_of(length, words, seps):
    if length == 0:
        return ''
    parts = [words[0]]
    for i in range(1, length):
        parts.append(seps[i - 1])
        parts.append(words[i])
    return ''.join(parts)


def texts_of(lengths, words, seps):
    out = []
    words_used = 0
    seps_used = 0
    for length in lengths:
        parts = []
        if length != 0:
            parts.append(words[words_used])
            for i in range(1, length):
                parts.append(seps[seps_used + i - 1])
                parts.append(words[words_used + i])
            seps_used += length - 1
        words_used += length
        out.append(''.join(parts))
    return out


def seps_needed(lengths):
    return sum([length - 1 for length in lengths if length != 0])


def in_rounds(emitter, total, size):
    """Values of an emitter that has size values per round."""
    out = []
    left = total
    while left > 0:
        wanted = min(size, left)
        out.extend(emitter(wanted))
        emitter.reset()
        left -= wanted
    return out


def total(numbers):
    return sum(numbers)


def spaces(number):
    return [' '] * number


def tell(members, method, *args, **kwargs):
    """Invoke a method on every member that has it."""
    for member in members:
        if member is not None and hasattr(member, method):
            getattr(member, method)(*args, **kwargs)


def put_on(members, name, value):
    """Set an attribute on every member that has it."""
    for member in members:
        if member is not None and hasattr(member, name):
            setattr(member, name, value)


def values_of(mapping):
    return [mapping[key] for key in mapping]


def with_one(members, member):
    return list(members) + [member]


def has(thing, name):
    return hasattr(thing, name)


def swap(emitters, old, new):
    for key in list(emitters):
        if emitters[key] is old:
            emitters[key] = new


# ---------------------------------------------------------------- weights
def totals(weights):
    out = []
    total = 0
    for weight in weights:
        total += weight
        out.append(total)
    return tuple(out)


def steps(cum_weights):
    out = []
    prev = 0
    for total in cum_weights:
        out.append(total - prev)
        prev = total
    return tuple(out)


def as_tuple(values):
    return tuple(values)


def as_set(values):
    return set(values)


def distinct(values):
    try:
        return len(set(values))
    except TypeError:
        return distinct_one_by_one(values)


def distinct_one_by_one(values):
    return sum(value not in values[:i] for i, value in enumerate(values))


def flag(value):
    return bool(value)


def all_distinct(values):
    return len(values) == distinct(values)


def picked(length, chosen, position):
    return range(length)[chosen][position]


def how_many(length, chosen):
    return len(range(length)[chosen])


def among(position, length, chosen):
    return position in range(length)[chosen]


def holds(container, value):
    return value in container


def times_found(container, value):
    return container.count(value)


def item(container, position):
    return container[position]


def listed(container):
    return [x for x in container]


def length_of(container):
    return len(container)


def are_equal(a, b):
    return a == b


def are_different(a, b):
    return a != b


class AgreesWithAll:
    """Compares equal to everything."""

    def __eq__(self, other):
        return True

    def __ne__(self, other):
        return False


def hash_of(value):
    return hash(value)


def text_for(value):
    return str(value)


def represented(value):
    return repr(value)


def spoil(result):
    """What a client may do to a list it was given."""
    result.append(None)
    result.reverse()
    result.clear()


def spoil_mapping(result):
    result.clear()


def has_key(mapping, key):
    return key in mapping


# ---------------------------------------------------------------- alphabets
def characters(ranges):
    out = []
    for start, end in ranges:
        for code in range(start, end + 1):
            out.append(chr(code))
    return out


class Bundle(ChildrenMixin, Emitter):
    """A user's composite of whatever children it is given."""

    def __init__(self, children):
        super().__init__(children=children)

    def emit(self):
        return [e() for e in self.emitters.values()]


class Counted(Emitter):
    """A user's emitter that counts as false: it says how many values it still has ready, which is none."""

    def __init__(self, value):
        self.value = value

    def __len__(self):
        return 0

    def emit(self):
        return self.value

    def emit_many(self, number):
        return [self.value] * number


class Source:
    """A user's own source of values, which says what it last gave."""

    def __init__(self, name, previous, multi_valued=False):
        self.name = name
        self.previous = previous
        self.multi_valued = multi_valued
        self.hide = False

    def __call__(self):
        return self.previous

    def reset(self):
        pass

    def seed(self, rng_seed):
        pass
