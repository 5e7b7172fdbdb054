"""Grammars the simulated users write.

`PARTS[name](E)` builds one part; E('other') gives another (shared) part of the
same grammar copy.  `TEXTS[name]` is the finite pool of inputs.  Everything is
built through the public API only.
"""
from random import Random

from .seams import hook

PARTS = {}
TEXTS = {}
TOKS = {}
TAGS = {}


def part(fn):
    PARTS[fn.__name__] = fn
    return fn


def grammar(*texts, tok='morph', tag='none'):
    def wrap(fn):
        PARTS[fn.__name__] = fn
        TEXTS[fn.__name__] = list(texts)
        TOKS[fn.__name__] = tok
        TAGS[fn.__name__] = tag
        return fn
    return wrap


# ------------------------------------------------------------ user functions
# They do what user code does, and give the simulator a place to interfere.

def user(kind):
    def wrap(fn):
        def call(*args):
            hook(kind, fn.__name__)
            return fn(*args)
        call.__name__ = fn.__name__
        return call
    return wrap


@user('pred')
def is_even(value):
    return value.isdigit() and int(value) % 2 == 0


@user('pred')
def short(value):
    return len(value) <= 4


@user('pred')
def long_word(value):
    return len(value) > 4


@user('norm')
def to_int(value):
    return int(value)


@user('norm')
def shout(value):
    return str(value) + '!'


@user('norm')
def upper(value):
    return value.upper()


@user('norm')
def twice(value):
    return [value, value]


@user('norm')
def long_list(value):
    return [len(_) for _ in value]


@user('norm')
def strip_int(value):
    return int(value.replace(' ', ''))


@user('norm')
def million(value):
    return {'тыс': 10 ** 3, 'тысяча': 10 ** 3, 'млн': 10 ** 6,
            'миллион': 10 ** 6}.get(value, value)


# ------------------------------------------------------------ names, agreement

@part
def Name(E):
    from yargy.interpretation import fact
    return fact('Name', ['first', 'last'])


@part
def Person(E):
    from yargy.interpretation import fact
    return fact('Person', ['position', 'name'])


@part
def gnc(E):
    from yargy.relations import gnc_relation
    return gnc_relation()


@part
def LAST(E):
    from yargy import and_, not_
    from yargy.predicates import gram, is_capitalized
    return and_(gram('Surn'), not_(gram('Abbr')), is_capitalized())


@grammar('управляющий директор Иван Ульянов',
         'директор Анны Ульяновой и Иван Петров',
         'генеральный директор компании Рога',
         'гендиректора Ивана Ульянова, директор Мария Иванова',
         'Иван Ульянов', '')
def person(E):
    from yargy import rule, and_, or_
    from yargy.predicates import gram
    from yargy.pipelines import morph_pipeline
    Name, Person, gnc = E('Name'), E('Person'), E('gnc')
    POSITION = morph_pipeline(['управляющий директор', 'гендиректор',
                               'директор', 'генеральный директор'])
    POSITION = rule(POSITION).interpretation(Person.position.normalized())
    FIRST = gram('Name').match(gnc).interpretation(Name.first.inflected())
    LAST = E('LAST').match(gnc).interpretation(Name.last.inflected())
    NAME = or_(rule(FIRST, LAST), rule(FIRST), rule(LAST)).interpretation(Name)
    return rule(
        POSITION,
        NAME.interpretation(Person.name)
    ).interpretation(Person)


@grammar('Иван Ульянов и Мария Иванова', 'Ивана Ульяновой',
         'Саши Петрова', 'Анна Анна Петрова Иванова', 'мама Маша Петрова',
         'Саша Ульянова, Женя Иванов')
def names(E):
    from yargy import rule, or_
    from yargy.predicates import gram
    Name, gnc = E('Name'), E('gnc')
    FIRST = gram('Name').match(gnc).interpretation(Name.first.inflected({'nomn', 'sing'}))
    LAST = gram('Surn').match(gnc).interpretation(Name.last.inflected({'nomn', 'sing'}))
    return or_(
        rule(FIRST, LAST),
        rule(LAST, FIRST),
        rule(FIRST),
    ).interpretation(Name)


@grammar('мамы дочери книге', 'мама мыла раму', 'сталь стали стол столу',
         'книги мамы', 'мыло мыла стали', 'дочери дочери дочери')
def casepair(E):
    from yargy import rule
    from yargy.predicates import gram
    from yargy.relations import case_relation
    N = gram('NOUN').match(E('case'))
    return rule(N, N)


@part
def case(E):
    from yargy.relations import case_relation
    return case_relation()


@grammar('мамы дочери книге', 'красивая мама', 'красивой мамы дочери',
         'новых домов столы', 'красивые столы стали', 'два стола')
def adjnoun(E):
    from yargy import rule, or_, and_
    from yargy.predicates import gram
    from yargy.relations import (gender_relation, number_relation, main)
    rel = and_(E('case'), number_relation())
    A = or_(rule(gram('ADJF')), rule(gram('NUMR')))
    N = rule(gram('NOUN'))
    return or_(
        rule(A.match(rel), N.match(rel)),
        rule(N.match(rel), main(N.match(E('case')))),
        rule(gram('ADJF').match(rel), gram('NOUN').match(rel), N.match(E('case'))),
    )


@grammar('красивая мама книги', 'Иван мыл раму', 'мама мамы Ивана',
         'красивой маме', 'стали столы')
def relmix(E):
    from yargy import rule, or_, and_, not_
    from yargy.predicates import gram, true
    from yargy.relations import (gender_relation, number_relation,
                                 case_relation, main)
    r1 = or_(gender_relation(), number_relation())
    r2 = not_(E('case'))
    X = gram('NOUN').match(r1)
    Y = rule(true(), main(gram('NOUN'))).match(r1)
    return or_(
        rule(X, Y),
        rule(gram('NOUN').match(r2), gram('NOUN').match(r2)),
    )


class prefix_relation_base(object):
    pass


@grammar('мама мыла раму', 'стол столы стола', 'рама рамы мыла',
         'дом дома домов')
def userrel(E):
    from yargy import rule, or_
    from yargy.predicates import gram, true
    from yargy.relations import Relation

    class same_letter(Relation):
        label = 'same_letter'

        def __call__(self, form, other):
            hook('rel', 'same_letter')
            return form.normalized[0] == other.normalized[0]
    R = same_letter()
    X = gram('NOUN').match(R)
    return or_(rule(X, X), rule(X, X, X))


# ------------------------------------------------------------ dates, numbers

@part
def Date(E):
    from yargy.interpretation import fact, attribute
    return fact('Date', ['year', 'month', attribute('day', 1),
                         attribute('era', 'n.e.')])


@part
def YEAR(E):
    from yargy import rule, and_
    from yargy.predicates import gte, lte
    return rule(and_(gte(1000), lte(2100)))


@part
def MONTHS(E):
    from yargy.pipelines import morph_pipeline
    return morph_pipeline(['январь', 'февраль', 'март', 'апрель', 'май',
                           'июнь', 'сентябрь'])


@grammar('8 января 2014 года, 15 июня', '18 мая 1999', 'в мае 2000',
         '2 сентября 31', 'март', '1 2 3')
def date(E):
    from yargy import rule, or_, and_
    from yargy.predicates import gte, lte, dictionary
    Date = E('Date')
    DAY = and_(gte(1), lte(31)).interpretation(Date.day.custom(to_int))
    MONTH = E('MONTHS').interpretation(Date.month.normalized().custom(upper))
    YEAR = E('YEAR').interpretation(Date.year.custom(to_int))
    return or_(
        rule(DAY, MONTH, YEAR),
        rule(DAY, MONTH),
        rule(MONTH, YEAR),
        rule(MONTH),
    ).interpretation(Date)


@grammar('8 января 2014 года', '1999 2000', 'в 1999 году', 'май 2001 года мая 1')
def yearonly(E):
    from yargy import rule
    from yargy.predicates import normalized
    Date = E('Date')
    return rule(
        E('MONTHS').interpretation(Date.month.normalized()).optional(),
        E('YEAR').interpretation(Date.year),
        rule(normalized('год')).optional()
    ).interpretation(Date)


@part
def Money(E):
    from yargy.interpretation import fact, attribute
    return fact('Money', [attribute('amount').repeatable(), 'mult', 'cur'])


@grammar('10 000 руб', '5 млн долларов', '1 000 000 рублей и 7 тыс руб',
         'рублей', '12 рублей 13')
def money(E):
    from yargy import rule, or_
    from yargy.predicates import type as type_, dictionary, caseless, length_eq
    from yargy.interpretation import custom
    Money = E('Money')
    INT = type_('INT')
    AMOUNT = rule(INT.interpretation(custom(to_int)).interpretation(Money.amount))
    MULT = or_(
        rule(dictionary({'тысяча', 'тыс', 'млн'}))
    ).interpretation(Money.mult.normalized().custom(million))
    CUR = or_(
        rule(dictionary({'рубль', 'руб'})).interpretation(Money.cur.const('RUB')),
        rule(dictionary({'доллар'})).interpretation(Money.cur.const('USD')),
    )
    return rule(
        AMOUNT.repeatable(max=3),
        MULT.optional(),
        CUR
    ).interpretation(Money)


@part
def Amount(E):
    from yargy.interpretation import fact
    return fact('Amount', ['value', 'unit'])


@grammar('10 000 метров', '7 м', '5 6 7', 'двести метров и 12 м')
def amount(E):
    from yargy import rule, or_
    from yargy.predicates import type as type_, normalized, in_caseless
    from yargy.interpretation import custom
    Amount = E('Amount')
    INT = rule(type_('INT')).repeatable(max=2)
    return rule(
        INT.interpretation(Amount.value.custom(strip_int)),
        or_(rule(normalized('метр')), rule(in_caseless({'м', 'км'}))
            ).interpretation(Amount.unit.normalized())
    ).interpretation(Amount)


# ------------------------------------------------------------ recursion

@grammar('( ( а ) )', '( а + а ) * а', 'а + а', '( а', 'а * ( а )', '+')
def expr(E):
    from yargy import rule, or_, forward
    EXPR = forward()
    ATOM = or_(rule('а'), rule('(', EXPR, ')'))
    EXPR.define(or_(rule(ATOM), rule(ATOM, '+', EXPR), rule(ATOM, '*', EXPR)))
    return EXPR


@part
def Item(E):
    from yargy.interpretation import fact, attribute
    return fact('Item', [attribute('titles').repeatable(), 'head'])


@grammar('мама папа дядя', 'мама , папа и дядя', 'дядя', 'мама 1 папа',
         'папа и мама')
def items(E):
    from yargy import rule, or_, forward
    from yargy.predicates import gram, in_
    from yargy.interpretation import inflected
    Item = E('Item')
    TITLE = gram('NOUN').interpretation(inflected({'nomn', 'sing'})).interpretation(Item.titles)
    REC = forward()
    SEP = rule(in_({',', 'и'})).optional()
    REC.define(or_(
        rule(TITLE),
        rule(TITLE, SEP, REC)
    ).interpretation(Item))
    return REC


@grammar('дом дома', 'дом стол дом', 'стол', 'дом дом дом дом')
def named_rec(E):
    from yargy import rule, or_, forward
    from yargy.predicates import normalized
    X = forward().named('X')
    Y = rule(normalized('дом')).named('Y')
    X.define(or_(Y, rule(Y, X)).named('Z'))
    return rule(X)


@grammar('а б а б', 'а а а', 'б', 'а б')
def mutual(E):
    from yargy import rule, or_, forward
    A, B = forward(), forward()
    A.define(or_(rule('а'), rule('а', B)))
    B.define(or_(rule('б'), rule('б', A)))
    return or_(rule(A), rule(B)).named('AB')


# ------------------------------------------------------------ repetition

@grammar('а а а а', 'а', 'аа а', 'а аа а', 'б а а б')
def ambig(E):
    from yargy import rule, or_
    A = rule('а')
    return or_(A, rule(A, A), rule('аа')).named('A').repeatable()


@grammar('а а а', 'а а б б', 'б б б а', 'а б в в', 'в', 'б в а')
def optreps(E):
    from yargy import rule, or_
    A, B, C = rule('а'), rule('б'), rule('в')
    return rule(A.optional().repeatable(), B.optional().repeatable(),
                C.repeatable().optional(), '.')


@grammar('а а а .', 'а а б б .', 'б б б а .', 'а б в в .', 'в .', '.')
def optreps2(E):
    from yargy import rule, or_
    A, B, C = rule('а').named('A'), rule('б').named('B'), rule('в').named('C')
    return rule(A.repeatable().optional(), B.optional().repeatable(),
                C.repeatable().optional(), '.')


@grammar('а а а а', 'а а', 'а б а', 'б б а а а', '')
def bounded(E):
    from yargy import rule, or_
    A = rule(E('LETTER')).repeatable(min=2, max=3)
    return or_(A, rule('б', rule('б')).repeatable(min=1), rule('а').repeatable(max=2))


@part
def LETTER(E):
    from yargy import rule, or_
    return or_(rule('а'), rule('я')).named('LETTER')


@grammar('а , я , а', 'а и я', 'а', 'а , , я', 'я , а и а')
def listing(E):
    from yargy import rule
    from yargy.predicates import in_
    SEP = in_({',', 'и'})
    L = E('LETTER')
    return rule(L, rule(SEP, L).repeatable(reverse=True).optional()).named('LIST')


@grammar('а я а', 'а а а', 'я', 'а б я')
def reversed_rep(E):
    from yargy import rule
    return rule(E('LETTER').repeatable(reverse=True),
                E('LETTER').optional(reverse=True),
                E('LETTER').repeatable(max=2, reverse=True))


# ------------------------------------------------------------ gazetteers

@part
def STEEL(E):
    from yargy.pipelines import morph_pipeline
    return morph_pipeline(['сталь', 'стать', 'стальной завод', 'завод'])


@part
def Ent(E):
    from yargy.interpretation import fact
    return fact('Ent', ['name', 'kind', 'rest'])


@grammar('стали', 'сталь стали', 'стальной завод', 'завод стальных заводов',
         'стало')
def steel(E):
    from yargy import rule
    Ent = E('Ent')
    return rule(E('STEEL').interpretation(Ent.name.normalized())).interpretation(Ent)


@grammar('стали', 'стали завод', 'завод стали', 'мама стали')
def steel2(E):
    from yargy import rule, or_
    from yargy.predicates import gram
    Ent = E('Ent')
    return or_(
        rule(E('STEEL').interpretation(Ent.name),
             E('STEEL').interpretation(Ent.rest.normalized())),
        rule(gram('NOUN').interpretation(Ent.kind.inflected({'nomn'})),
             E('STEEL').interpretation(Ent.name.normalized().custom(upper))),
    ).interpretation(Ent)


@grammar('Кот', 'кот КОТ Кот', 'лев толстой', 'Лев Толстой и лев', 'Евгений Онегин')
def gazet(E):
    from yargy import rule, or_
    from yargy.pipelines import pipeline, caseless_pipeline
    Ent = E('Ent')
    return or_(
        rule(pipeline(['Кот', 'Лев Толстой', 'Лев']).interpretation(Ent.name)),
        rule(caseless_pipeline(['кот', 'евгений онегин', 'лев']
                               ).interpretation(Ent.kind.normalized())),
    ).interpretation(Ent)


@grammar('мыла', 'мыла стали', 'белила мыла стали', 'кот стали')
def gazet_rep(E):
    from yargy import rule
    from yargy.pipelines import morph_pipeline
    P = morph_pipeline(['мыло', 'мыть', 'белила', 'белить', 'стать', 'сталь'])
    return rule(P.repeatable())


# ------------------------------------------------------------ facts

@part
def Geo(E):
    from yargy.interpretation import fact
    return fact('Geo', ['name', 'status'])


@grammar('Кемеровская область', 'Великобритания', 'Новая Зеландия',
         'Московской области и Великобритании')
def geo(E):
    from yargy import rule, or_, and_
    from yargy.predicates import gram, is_capitalized, dictionary
    Geo, gnc = E('Geo'), E('gnc')
    ADJ = and_(gram('ADJF'), is_capitalized()).interpretation(Geo.name.inflected()).match(gnc)
    STATUS = dictionary({'область', 'край'}).interpretation(Geo.status.normalized()).match(gnc)
    REGION = rule(ADJ, STATUS).interpretation(Geo)
    COUNTRY = rule(
        and_(gram('Geox'), is_capitalized()).interpretation(Geo.name.normalized())
    ).interpretation(Geo)
    return or_(REGION, COUNTRY).interpretation(Geo)


@grammar('мама Иван 5', 'Мария 12 книга', '5 5 5', 'книга Анна', 'Анна 7')
def nested(E):
    from yargy import rule, or_
    from yargy.predicates import gram, type as type_
    from yargy.interpretation import fact, attribute, const, custom, normalized
    Inner = E('Name')
    Outer = E('Outer')
    INNER = rule(gram('Name').interpretation(Inner.first.inflected())).interpretation(Inner)
    NUM = rule(type_('INT').interpretation(custom(to_int))
               ).interpretation(Outer.numbers)
    return or_(
        rule(gram('NOUN').interpretation(Outer.noun.normalized()),
             INNER.interpretation(Outer.inner), NUM.optional()),
        rule(INNER.interpretation(Outer.inner), NUM),
        rule(NUM, NUM.repeatable()),
    ).interpretation(Outer)


@part
def Outer(E):
    from yargy.interpretation import fact, attribute
    return fact('Outer', ['noun', 'inner', attribute('numbers').repeatable(),
                          attribute('flag', False)])


@grammar('да', 'нет нет', 'да нет', 'возможно да', 'никогда')
def consts(E):
    from yargy import rule, or_
    from yargy.predicates import caseless, eq
    from yargy.interpretation import const, custom
    Flag = E('Flag')
    YES = rule(caseless('да')).interpretation(Flag.value.const(True))
    NO = rule(eq('нет')).interpretation(const(False)).interpretation(Flag.value)
    MAYBE = rule(caseless('возможно')).interpretation(
        custom(upper).custom(twice)).interpretation(Flag.more)
    return rule(MAYBE.optional(), or_(YES, NO)).interpretation(Flag)


@part
def Flag(E):
    from yargy.interpretation import fact, attribute
    return fact('Flag', [attribute('value'), attribute('more', 'no')])


@grammar('Иван 5', 'Анна 7 8', '5', 'мама Иван 6')
def inherit(E):
    """fact inheritance through a proxy class (cookbook)"""
    from yargy import rule, or_
    from yargy.predicates import gram, type as type_
    Base = E('Amount')
    Sub = E('SubAmount')
    U = gram('Name').interpretation(Sub.unit.normalized())
    V = type_('INT').interpretation(Sub.value.custom(to_int))
    return or_(rule(U, V), rule(V)).interpretation(Sub)


@part
def SubAmount(E):
    from yargy.interpretation import fact
    Base = fact('AmountBase', ['value', 'unit'])

    class SubAmount(Base):
        @property
        def doubled(self):
            return self.value * 2
    return SubAmount


# ------------------------------------------------------------ predicates

@grammar('12 15 100', 'кот 12', 'котики 8 кот', 'КОТ Кот кот', '14')
def preds(E):
    from yargy import rule, or_, and_, not_
    from yargy.predicates import (custom, is_upper, is_lower, is_title,
                                  length_eq, true, type as type_)
    return or_(
        rule(custom(is_even, types='INT')),
        rule(and_(is_upper(), not_(length_eq(2)))),
        rule(custom(short), and_(is_lower(), custom(long_word))),
        rule(and_(is_title(), true()), or_(is_upper(), is_lower())),
    )


@user('pred')
def no_vowels(value):
    return not set(value.lower()) & set('аеиоуыэюя')


@user('pred')
def palindrome(value):
    return value.lower() == value.lower()[::-1]


@grammar('кот ноон 12', 'ноон 14 мм', 'мм ноон', 'шш 8 кот', 'казак 12 мм', '15 ноон')
def custpreds(E):
    from yargy import rule, or_, and_, not_
    from yargy.predicates import custom, type as type_, gte, caseless, normalized
    return or_(
        rule(or_(custom(palindrome), custom(no_vowels)), not_(custom(short))),
        rule(and_(or_(custom(is_even, types='INT'), custom(palindrome)),
                  not_(and_(custom(no_vowels), custom(short)))),
             or_(caseless('кот'), custom(no_vowels)).optional()),
        rule(not_(type_('INT')), and_(custom(is_even, types='INT'), gte(10)).repeatable()),
        rule(or_(normalized('казак'), custom(palindrome)), rule(custom(no_vowels)).optional()),
    )


@grammar('кот котик', 'стол 12 столик', 'мама мамочка мама', 'столы столами')
def ownpred(E):
    """predicates of the user's own"""
    from yargy import rule, or_, and_, not_
    from yargy.predicates.constructors import Predicate
    from yargy.predicates import gram
    W = E('Word')

    class Starts(Predicate):
        __attributes__ = ['value']

        def __init__(self, value):
            self.value = value

        def __call__(self, token):
            hook('pred', 'Starts')
            return token.value.lower().startswith(self.value)

        @property
        def label(self):
            return 'starts(%s)' % self.value

    class Normal(Predicate):
        """needs the tokenizer of the parser it ends up in"""
        __attributes__ = ['value']

        def __init__(self, value, morph=None):
            self.value = value
            self.morph = morph

        def activate(self, context):
            return Normal(self.value, context.tokenizer.morph)

        def __call__(self, token):
            hook('pred', 'Normal')
            return (bool(getattr(token, 'forms', None))
                    and bool(self.morph.normalized(self.value) & self.morph.normalized(token.value)))
    KOT, STOL, MAMA = Starts('кот'), Starts('стол'), Normal('маму')
    return or_(
        rule(KOT.interpretation(W.a), KOT.interpretation(W.b)),
        rule(STOL, not_(STOL).repeatable(), STOL.interpretation(W.a.normalized())),
        rule(MAMA.interpretation(W.b.normalized()), or_(MAMA, Starts('мам')).repeatable()),
        rule(and_(STOL, gram('NOUN')).interpretation(W.a), STOL),
    ).interpretation(W)


@part
def Word(E):
    from yargy.interpretation import fact
    return fact('Word', ['a', 'b'])


@grammar('дом дерево дверь', 'кот котом', 'мама мыла мыла', 'дома дом доме', 'стол столу кот')
def relcomp(E):
    from yargy import rule, or_, and_, not_
    from yargy.predicates import gram
    from yargy.relations import Relation

    class first_letter(Relation):
        def __call__(self, form, other):
            hook('rel', 'first_letter')
            return form.normalized[:1] == other.normalized[:1]

    class same_word(Relation):
        def __call__(self, form, other):
            hook('rel', 'same_word')
            return form.normalized == other.normalized
    A = and_(first_letter(), not_(same_word()))
    B = or_(same_word(), and_(E('gen_'), first_letter()))
    X = gram('NOUN').match(A)
    Y = gram('NOUN').match(B)
    return or_(rule(X, X, X), rule(Y, Y), rule(Y, X, Y))


@grammar('3 кг', '12 тонн 5', 'вес 3 кг', '7 кг 12 тонн', 'вес 5 тонн')
def factclass(E):
    """fact with behaviour of the user's own"""
    from yargy import rule, or_
    from yargy.predicates import type as type_, caseless
    from yargy.pipelines import morph_pipeline
    from yargy.interpretation import fact, attribute
    Base = fact('Weight', ['value', 'unit', attribute('known', 'no')])

    class Weight(Base):
        @property
        def obj(self):
            hook('norm', 'obj')
            return (self.value or 0) * {'кг': 1, 'тонна': 1000}.get(self.unit, 0)

        @property
        def as_json(self):
            return dict(super(Weight, self).as_json, total=self.obj)
    UNIT = morph_pipeline(['кг', 'тонна']).interpretation(Weight.unit.normalized())
    INT = type_('INT').interpretation(Weight.value.custom(to_int))
    return rule(
        caseless('вес').interpretation(Weight.known.const('yes')).optional(), INT, UNIT,
    ).interpretation(Weight)


@grammar('мамы папы', 'столы стол', 'ножницы режут', 'кот и коты', 'бежит бегут')
def singles(E):
    from yargy import rule, or_, and_
    from yargy.predicates import is_single, gram, custom
    return or_(
        rule(and_(is_single(), gram('NOUN'))),
        rule(gram('VERB'), custom(short).optional()),
        rule(is_single().match(E('case')), gram('NOUN').match(E('case'))),
    )


@grammar('тел +7 913 123 45 67', 'почта a@b.ru', 'a@b.ru 89131234567',
         'site и почта x.y@z.com', tok='rules')
def contacts(E):
    from yargy import rule, or_
    from yargy.predicates import type as type_
    C = E('Contact')
    return or_(
        rule(type_('EMAIL').interpretation(C.email)),
        rule(type_('PHONE').interpretation(C.phone)),
        rule(type_('EMAIL').interpretation(C.email), type_('PHONE').interpretation(C.phone)),
    ).interpretation(C)


@part
def Contact(E):
    from yargy.interpretation import fact
    return fact('Contact', ['email', 'phone'])


@grammar('abc 12 def', 'abc ABC', '12', 'x y z 1 2', tok='plain')
def plain(E):
    from yargy import rule, or_
    from yargy.predicates import type as type_, caseless, is_upper, in_
    return or_(
        rule(caseless('ABC')),
        rule(type_('INT').repeatable()),
        rule(in_({'x', 'y', 'z'}), in_({'x', 'y', 'z'}).repeatable(max=2)).named('XYZ'),
    )


@grammar('Иван Петров живёт в Москве', 'в Москве', 'Москва Петров',
         'дом Иван', tag='bio')
def tagged(E):
    from yargy import rule, or_
    from yargy.predicates import tag, gram
    Ent = E('Ent')
    PER = rule(tag('B-PER'), tag('I-PER').repeatable().optional()
               ).interpretation(Ent.name)
    LOC = rule(tag('B-LOC').interpretation(Ent.rest.inflected({'nomn', 'sing'})))
    return or_(
        rule(PER), LOC,
        rule(gram('NOUN').interpretation(Ent.kind.normalized()), PER),
    ).interpretation(Ent)


@grammar('Ивана Петрова мама', 'в Москве', 'красивая Москва',
         'дом Ивана', tag='comp')
def tagged2(E):
    from yargy import rule, or_
    from yargy.predicates import tag, gram
    N = tag('B-LOC').match(E('case'))
    return or_(
        rule(gram('ADJF').match(E('case')), N),
        rule(tag('CAP'), tag('CAP')),
        rule(gram('NOUN').match(E('case')), tag('CAP').match(E('case'))),
    )


# ------------------------------------------------------------ more sharing

@grammar('Ростов-на-Дону', 'ростов-на-дону и Нью-Йорк', 'кот-баюн', 'в Нью-Йорке',
         'кот - баюн', 'a@b.ru', 'кота-баюна a@b.ru')
def hyphens(E):
    from yargy import rule, or_
    from yargy.pipelines import pipeline, caseless_pipeline
    Ent = E('Ent')
    return or_(
        rule(E('CITIES').interpretation(Ent.name.normalized())),
        rule(caseless_pipeline(['Ростов-на-Дону', 'Кот-Баюн', 'кот']
                               ).interpretation(Ent.kind.normalized())),
        rule(pipeline(['a@b.ru', 'кот - баюн']).interpretation(Ent.rest)),
    ).interpretation(Ent)


@part
def CITIES(E):
    from yargy.pipelines import morph_pipeline
    return morph_pipeline(['нью-йорк', 'кот-баюн', 'ростов на дону', 'баюн'])


@grammar('в Нью-Йорке стали', 'стали кот-баюн', 'Нью-Йорк', 'баюна стали')
def hyphens2(E):
    from yargy import rule
    from yargy.predicates import dictionary
    Ent = E('Ent')
    return rule(
        rule(dictionary({'сталь', 'в', 'мыло'})).interpretation(Ent.kind.normalized()).optional(),
        E('CITIES').interpretation(Ent.name.normalized()),
    ).interpretation(Ent)


@grammar('стали мыла', 'мыла стали', 'банки пили', 'пила банка', 'стали стали')
def dicts(E):
    from yargy import rule, or_, and_
    from yargy.predicates import dictionary, normalized, in_caseless
    D = E('DICT')
    return or_(
        rule(D, normalized('стать')),
        rule(D, in_caseless({'Пили', 'БАНКА'})),
        rule(and_(D, normalized('сталь')), D),
        rule(D),
    )


@part
def DICT(E):
    from yargy.predicates import dictionary
    return dictionary({'мыть', 'стали', 'банка', 'пилить'})


@grammar('стали', 'мыла банки', 'стали пили')
def dicts2(E):
    from yargy import rule
    Ent = E('Ent')
    return rule(E('DICT').interpretation(Ent.name.normalized()),
                E('DICT').interpretation(Ent.rest.inflected({'nomn', 'plur'})).optional()
                ).interpretation(Ent)


@part
def OPT(E):
    from yargy import rule
    return rule('а').named('О').optional()


@part
def REP(E):
    from yargy import rule
    return rule(E('LETTER')).repeatable()


@part
def SQ(E):
    from yargy.interpretation import fact, attribute
    return fact('SQ', [attribute('x').repeatable(), attribute('y').repeatable()])


def _squash(first, second):
    from yargy import rule
    return rule(first, second, '.')


@grammar('а .', 'а а .', '.', 'б а .', 'а а а .')
def squash1(E):
    from yargy import rule
    SQ = E('SQ')
    return rule(E('OPT').optional(reverse=True).interpretation(SQ.x),
                rule('а').optional().interpretation(SQ.y), '.').interpretation(SQ)


@grammar('а .', 'а а .', '.', 'б а .', 'а а а .')
def squash2(E):
    from yargy import rule
    SQ = E('SQ')
    return rule(E('OPT').interpretation(SQ.x),
                rule('а').optional().interpretation(SQ.y), '.').interpretation(SQ)


@grammar('а .', 'а я а .', 'я .', 'а а а .', '.')
def squash3(E):
    from yargy import rule
    SQ = E('SQ')
    return rule(E('REP').optional(reverse=True).interpretation(SQ.x),
                E('REP').repeatable(reverse=True).optional().interpretation(SQ.y),
                '.').interpretation(SQ)


@grammar('а .', 'а я а .', 'я .', 'а а а .', '.')
def squash4(E):
    from yargy import rule
    SQ = E('SQ')
    return rule(E('REP').interpretation(SQ.x),
                E('OPT').repeatable().interpretation(SQ.y),
                '.').interpretation(SQ)


@grammar('а .', 'а я а .', 'я .', 'а а .', 'а а а .', '.')
def squash5(E):
    from yargy import rule
    SQ = E('SQ')
    return rule(E('OPT').repeatable(reverse=True).interpretation(SQ.x),
                E('REP').repeatable().interpretation(SQ.y),
                E('OPT').optional().interpretation(SQ.x),
                '.').interpretation(SQ)


# ------------------------------------------------------------ more agreement

@part
def gen_(E):
    from yargy.relations import gender_relation
    return gender_relation()


@part
def num_(E):
    from yargy.relations import number_relation
    return number_relation()


@grammar('красивая мама книги', 'стали столы', 'мыла стали', 'банки пилы мыла',
         'новый дом мамы', 'рой суда банка', 'большой стали')
def tworel(E):
    """one word in two agreements"""
    from yargy import rule, or_
    from yargy.predicates import gram
    Ent = E('Ent')
    A = gram('ADJF').match(E('case')).interpretation(Ent.kind.inflected({'nomn', 'sing'}))
    N = gram('NOUN').match(E('case')).match(E('num_')).interpretation(Ent.name.inflected())
    M = gram('NOUN').match(E('num_')).match(E('gen_')).interpretation(Ent.rest.normalized())
    return or_(
        rule(A, N, M),
        rule(A, gram('NOUN').match(E('gen_')).match(E('case'))),
        rule(N, M),
        rule(A, N),
    ).interpretation(Ent)


@grammar('новые ножницы', 'ножниц и очков', 'красивых брюк', 'зелёных ёлок', 'новое пальто',
         'чёрный кофе мамы', 'сани', 'ножницы стол', 'Зелёной Ёлки', 'новые часы часы')
def oddnouns(E):
    """plural-only, indeclinable words, ё"""
    from yargy import rule, or_, and_, not_
    from yargy.predicates import gram
    Ent, gnc = E('Ent'), E('gnc')
    A = gram('ADJF').match(gnc).interpretation(Ent.kind.inflected())
    N = gram('NOUN').match(gnc).interpretation(Ent.name.inflected())
    return or_(
        rule(A, N),
        rule(N),
        rule(gram('NOUN').interpretation(Ent.name.inflected()),
             gram('NOUN').interpretation(Ent.rest.inflected({'gent'}))),
    ).interpretation(Ent)


@grammar('Ивана Ульянова книги', 'мамы Анны Петровой', 'Иван книга', 'дочери Анны мамы')
def nestedrel(E):
    """agreement inside and around a sub-rule with a main word"""
    from yargy import rule, or_
    from yargy.predicates import gram
    from yargy.relations import main
    Ent, gnc = E('Ent'), E('gnc')
    FULL = rule(main(gram('Name').match(gnc)), E('LAST').match(gnc))
    X = or_(FULL, rule(gram('Name'))).interpretation(Ent.name.inflected())
    return or_(
        rule(X.match(E('case')), gram('NOUN').match(E('case')).interpretation(Ent.kind)),
        rule(gram('NOUN').match(E('case')), X.match(E('case'))),
    ).interpretation(Ent)


@grammar('g f e d c b a', 'раз a два e', 'a a b раз', '1 2 g', 'мама x f Раз', 'e d')
def wideor(E):
    """long lists of predicates, inside each other"""
    from yargy import rule, or_, and_, not_
    from yargy.predicates import (eq, caseless, length_eq, gte, is_upper, is_title, gram,
                                  in_, type)
    F = E('Ent')
    A = or_(*[eq(_) for _ in 'abcdefg'])
    B = or_(caseless('раз'), caseless('два'), and_(type('INT'), gte(2)), A, gram('NOUN'))
    C = and_(or_(eq('x'), eq('y'), type('INT'), gram('NUMR'), eq('f'), eq('g'), in_({'a', 'b'})),
             not_(or_(eq('y'), is_upper(), length_eq(3))))
    return or_(rule(A.interpretation(F.kind)),
               rule(B.interpretation(F.name), A),
               rule(C, B.interpretation(F.rest))).interpretation(F)


@grammar('новые столы', 'Мама Иван', 'мама мыла стали', 'большой стали банки', 'дома Ивана',
         'банки стали', 'Стали банки мамы')
def prel(E):
    """agreement of words known by anything but their forms"""
    from yargy import rule, or_
    from yargy.predicates import (dictionary, is_capitalized, in_caseless, true, length_eq,
                                  normalized, caseless)
    Ent, gnc = E('Ent'), E('gnc')
    A = dictionary({'новый', 'большой', 'мама', 'дом', 'банка'}).match(gnc)
    B = in_caseless({'столы', 'стали', 'банки', 'мыла'}).match(gnc)
    C = is_capitalized().match(gnc)
    return or_(
        rule(A.interpretation(Ent.kind.inflected()), B.interpretation(Ent.name.inflected())),
        rule(C.interpretation(Ent.kind.normalized()), C.interpretation(Ent.name)),
        rule(A, true().match(gnc).interpretation(Ent.rest.inflected()), B),
        rule(normalized('дом').match(E('num_')), true().match(E('num_')).match(E('case'))),
    ).interpretation(Ent)


@grammar('мама мыла раму и стол', 'раму мыл Иван', 'мыла', 'и и и', 'Иван и мама')
def chains(E):
    """interpretators stacked in every order"""
    from yargy import rule, or_
    from yargy.predicates import gram, caseless, true
    from yargy.interpretation import normalized, inflected, custom, const
    F = E('Chain')
    NOUN = gram('NOUN').interpretation(inflected({'nomn', 'sing'}).custom(upper))
    VERB = gram('VERB').interpretation(normalized().custom(twice))
    AND = rule(caseless('и')).interpretation(const('&'))
    return or_(
        rule(NOUN.interpretation(F.who),
             VERB.interpretation(F.what).optional(),
             rule(NOUN.interpretation(F.extra)).repeatable(max=2).optional(),
             AND.interpretation(F.sep).optional()),
        rule(VERB.interpretation(F.what.custom(long_list)), rule(true()).interpretation(F.sep)),
        rule(AND.interpretation(F.sep), AND.interpretation(F.extra)),
    ).interpretation(F)


@part
def Chain(E):
    from yargy.interpretation import fact, attribute
    return fact('Chain', [attribute('who', 'nobody'), 'what',
                          attribute('extra').repeatable(), attribute('sep', '-')])


@grammar('дом дома столы', 'дом , дом', 'столы', 'дом стол , дом')
def recfact(E):
    """a fact that holds facts of its own class"""
    from yargy import rule, or_, forward
    from yargy.predicates import gram, in_
    T = E('Tree')
    X = forward()
    HEAD = gram('NOUN').interpretation(T.value.normalized())
    X.define(or_(
        rule(HEAD),
        rule(HEAD, in_({','}), X.interpretation(T.kids)),
        rule(HEAD, X.interpretation(T.kids)),
    ).interpretation(T))
    return X


@part
def Tree(E):
    from yargy.interpretation import fact, attribute
    return fact('Tree', ['value', attribute('kids').repeatable()])


# ------------------------------------------------------------ generated

LEAVES = ['а', 'б', 'в', 'дом', 'стол']


class RandomFamily(object):
    """A few rules sharing sub-rules, from a seed.  No sub-rule that can be
    empty is repeated, sizes are small, so that every text parses quickly."""

    def __init__(self, seed):
        self.seed = seed
        rng = self.rng = Random('family:%d' % seed)
        # later families are written with more of the language
        self.wide = seed >= 200
        self.morph = rng.random() < (0.5 if self.wide else 0.35)
        self.shared = []
        self.nshared = rng.randint(1, 3)
        for i in range(self.nshared):
            self.shared.append(self.node(2, allow_shared=i))
        self.ntops = 2
        self.tops = []
        for i in range(self.ntops):
            top = self.node(3, allow_shared=self.nshared)
            if nullable(top, self.shared):
                top = ['seq', [top, ['t', rng.choice(LEAVES)]]]
            if rng.random() < 0.4:
                top = ['fact', top]
            self.tops.append(top)
        self.rec = rng.random() < 0.5
        self.texts = []
        for _ in range(5):
            n = rng.choice([1, 2, 3, 3, 4, 5])
            words = [rng.choice(LEAVES + (['дома', 'столы', 'стали', 'красивая', 'новых', 'мамы'][:6 if self.wide else 3] if self.morph else ['1', '.']))
                     for _ in range(n)]
            self.texts.append(' '.join(words))

    def squashes(self, node):
        """optional and repeated collapse into one"""
        while node[0] == 'ref':
            node = self.shared[node[1]]
        return node[0] in ('opt', 'optrep', 'rep') and (
            not nullable(node[1], self.shared) or self.squashes(node[1]))

    def node(self, depth, allow_shared):
        rng = self.rng
        if depth == 0 or rng.random() < 0.15:
            if allow_shared and rng.random() < 0.5:
                return ['ref', rng.randrange(allow_shared)]
            return ['t', rng.choice(LEAVES)]
        kind = rng.choice(['seq', 'seq', 'seq', 'or', 'or', 'rep', 'opt', 'named',
                           'leaf', 'ref', 'bound', 'pipe', 'optrep', 'attr']
                          + (['opt', 'rep', 'ref', 'ref', 'optrep', 'attr'] if self.wide else [])
                          + (['match', 'match', 'leaf'] if self.wide and self.morph else []))
        if kind == 'ref' and not allow_shared:
            kind = 'leaf'
        if kind == 'ref':
            return ['ref', rng.randrange(allow_shared)]
        if kind == 'leaf':
            choices = ['t', 'in', 'caseless', 'even']
            if self.morph:
                choices += ['gram', 'normalized', 'single']
            leaf = rng.choice(choices)
            if leaf in ('t', 'caseless', 'normalized'):
                return [leaf, rng.choice(LEAVES)]
            if leaf == 'in':
                return ['in', sorted(rng.sample(LEAVES, 2))]
            if leaf == 'gram':
                return ['gram', rng.choice(['NOUN', 'nomn', 'sing', 'VERB'] + (['NOUN', 'ADJF'] if self.wide else []))]
            return [leaf]
        if kind == 'pipe':
            kinds = ['pipeline', 'caseless_pipeline']
            if self.morph:
                kinds.append('morph_pipeline')
            words = LEAVES + ['а б', 'дом стол', 'стали']
            return ['pipe', rng.choice(kinds), rng.sample(words, rng.randint(1, 4))]
        if kind == 'seq':
            items = [self.node(depth - 1, allow_shared)
                     for _ in range(rng.randint(2, 3))]
            return ['seq', items]
        if kind == 'or':
            return ['or', [self.node(depth - 1, allow_shared)
                           for _ in range(rng.randint(2, 3))]]
        child = self.node(depth - 1, allow_shared)
        if kind in ('rep', 'optrep', 'bound') and nullable(child, getattr(self, 'shared', [])):
            if kind == 'bound' or not self.squashes(child):
                kind = 'named'
        if kind == 'rep':
            return ['rep', child, rng.random() < 0.3]
        if kind == 'optrep':
            return ['optrep', child, rng.random() < 0.5]
        if kind == 'opt':
            return ['opt', child, rng.random() < 0.3]
        if kind == 'bound':
            return ['bound', child, rng.choice([None, 1, 2]), rng.choice([2, 3])]
        if kind == 'attr':
            how = None
            index = rng.randrange(2)
            if self.wide and index and rng.random() < 0.6:
                how = rng.choice(['normalized', 'inflected', 'custom', 'const'])
                if how == 'inflected' and not (self.morph and child[0] in (
                        'gram', 'normalized', 'single')):
                    how = 'normalized' if self.morph else 'custom'
            return ['attr', child, index, how]
        if kind == 'match':
            return ['match', child, rng.choice(['case', 'gnc', 'num_', 'gen_'])]
        return ['named', child, rng.choice(['X', 'Y', 'Z'])]


def nullable(node, shared):
    kind = node[0]
    if kind in ('opt', 'optrep'):
        return True
    if kind == 'ref':
        return node[1] >= len(shared) or nullable(shared[node[1]], shared)
    if kind == 'seq':
        return all(nullable(_, shared) for _ in node[1])
    if kind == 'or':
        return any(nullable(_, shared) for _ in node[1])
    if kind in ('rep', 'bound', 'named', 'attr', 'fact', 'match'):
        return nullable(node[1], shared)
    return False


_families = {}


def family(seed):
    fam = _families.get(seed)
    if fam is None:
        if len(_families) > 200:
            _families.clear()
        fam = _families[seed] = RandomFamily(seed)
    return fam


def build_random(E, name):
    """name: rnd:<seed>:<p|t><index>"""
    from yargy import rule, or_, forward
    from yargy import predicates as P
    from yargy import pipelines
    from yargy.interpretation import fact, attribute
    _, seed, which = name.split(':')
    fam = family(int(seed))

    def wrap(x):
        from yargy.predicates import Predicate
        if isinstance(x, Predicate):
            return rule(x)
        return x

    def build(node):
        kind = node[0]
        if kind == 't':
            return P.eq(node[1])
        if kind == 'in':
            return P.in_(set(node[1]))
        if kind == 'caseless':
            return P.caseless(node[1])
        if kind == 'normalized':
            return P.normalized(node[1])
        if kind == 'gram':
            return P.gram(node[1])
        if kind == 'single':
            return P.is_single()
        if kind == 'even':
            return P.custom(short)
        if kind == 'pipe':
            return getattr(pipelines, node[1])(node[2])
        if kind == 'ref':
            return E('rnd:%s:p%d' % (seed, node[1]))
        if kind == 'seq':
            return rule(*[build(_) for _ in node[1]])
        if kind == 'or':
            return or_(*[wrap(build(_)) for _ in node[1]])
        child = wrap(build(node[1]))
        if kind == 'rep':
            return child.repeatable(reverse=node[2])
        if kind == 'opt':
            return child.optional(reverse=node[2])
        if kind == 'optrep':
            if node[2]:
                return child.optional().repeatable()
            return child.repeatable().optional()
        if kind == 'bound':
            return child.repeatable(min=node[2], max=node[3])
        if kind == 'named':
            return child.named(node[2])
        if kind == 'attr':
            attribute = [E('RF').a, E('RF').b][node[2]]
            how = node[3]
            if how == 'normalized':
                attribute = attribute.normalized()
            elif how == 'inflected':
                attribute = attribute.inflected({'nomn', 'sing'})
            elif how == 'custom':
                attribute = attribute.custom(shout)
            elif how == 'const':
                attribute = attribute.const(node[2])
            return child.interpretation(attribute)
        if kind == 'match':
            return child.match(E(node[2]))
        if kind == 'fact':
            return child.interpretation(E('RF'))
        raise ValueError(kind)

    if which[0] == 'p':
        return wrap(build(fam.shared[int(which[1:])]))
    index = int(which[1:])
    top = wrap(build(fam.tops[index]))
    if fam.rec and index == 1:
        F = forward()
        F.define(or_(top, rule(top, F)))
        return F
    return top


@part
def RF(E):
    from yargy.interpretation import fact, attribute
    return fact('RF', [attribute('a').repeatable(), 'b'])


def build_wrap(E, name):
    """wrap:<k>:<grammar>: a grammar inside a bigger one"""
    from yargy import rule, or_, and_, forward
    from yargy.predicates import true
    _, k, inner = name.split(':', 2)
    X = E(inner)
    k = int(k)
    if k == 0:
        return or_(rule(X), rule('!'))
    if k == 1:
        return rule(X, X.optional())
    if k == 2:
        return X.named('W')
    if k == 3:
        return rule(true().optional(), X.named('W').repeatable(max=2))
    if k == 4:
        return rule(X.optional(reverse=True), or_(rule('.'), X))
    F = forward()
    F.define(or_(rule(X), rule(X, F)))
    return F.named('F')


WRAPS = 6


def subparts(name):
    """rules a grammar is made of, to be looked at directly"""
    if name.startswith('wrap:'):
        name = name.split(':', 2)[2]
        return [name] + subparts(name)
    if name.startswith('rnd:'):
        seed = name.split(':')[1]
        return ['rnd:%s:p%d' % (seed, i) for i in range(family(int(seed)).nshared)]
    return SUBPARTS.get(name, [])


SUBPARTS = {
    'date': ['MONTHS', 'YEAR'], 'yearonly': ['MONTHS', 'YEAR'], 'steel': ['STEEL'],
    'steel2': ['STEEL'], 'bounded': ['LETTER'], 'listing': ['LETTER'],
    'reversed_rep': ['LETTER'], 'hyphens': ['CITIES'], 'hyphens2': ['CITIES'],
    'squash1': ['OPT'], 'squash2': ['OPT'], 'squash3': ['REP', 'LETTER'],
    'squash4': ['REP', 'OPT'], 'squash5': ['REP', 'OPT'],
}


def texts_of(name):
    if name.startswith('wrap:'):
        return texts_of(name.split(':', 2)[2])
    if name.startswith('rnd:'):
        return family(int(name.split(':')[1])).texts
    return TEXTS[name]


def default_tok(name):
    if name.startswith('wrap:'):
        name = name.split(':', 2)[2]
    return TOKS.get(name, 'morph')


def default_tag(name):
    if name.startswith('wrap:'):
        name = name.split(':', 2)[2]
    return TAGS.get(name, 'none')


GRAMMARS = list(TEXTS)
# grammars sharing parts, so that several parsers have common sub-rules
GROUPS = [
    ['person', 'names', 'geo', 'nested'],
    ['date', 'yearonly'],
    ['steel', 'steel2', 'gazet', 'tagged'],
    ['casepair', 'adjnoun', 'relmix', 'singles', 'tagged2'],
    ['bounded', 'listing', 'reversed_rep'],
    ['expr'], ['items'], ['named_rec'], ['mutual'], ['ambig'],
    ['optreps', 'optreps2'], ['gazet_rep'], ['amount', 'inherit'],
    ['hyphens', 'hyphens2'], ['dicts', 'dicts2', 'steel2'],
    ['squash1', 'squash2'], ['squash3', 'squash4', 'squash5'],
    ['tworel', 'oddnouns', 'nestedrel', 'casepair', 'prel'], ['chains'], ['recfact'],
    ['money'], ['consts'], ['preds', 'custpreds'], ['contacts'], ['plain'],
    ['userrel', 'relcomp'], ['ownpred'], ['factclass'],
]

# grammars that are mostly predicates inside predicates
PREDS = ['preds', 'custpreds', 'ownpred', 'wideor', 'wideor', 'dicts', 'dicts2', 'prel', 'steel2']
