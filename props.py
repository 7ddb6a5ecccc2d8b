"""Per-property configuration: driver binaries, laws checked by TLC on the specification, generated behaviours."""


def blades(inv, maxdim=3, spec='Spec3', mindim=1, workers=2):
    return dict(module='Laws', spec=spec, consts=dict(MaxDim=maxdim, MinDim=mindim), inv=inv, workers=workers)


def mvs(inv, rings=('Z',), sigs='SigsA', workers=2):
    return dict(module='MvLawsMC', spec='Spec', inv=inv, workers=workers,
                consts=dict(MvSigs='<- ' + sigs, MvRings='{%s}' % ','.join('"%s"' % r for r in rings),
                            Vals='<- Vals3'))


def euclid(init, inv, dims, size=2, workers=2):
    return dict(module='EuclidLaws', spec='Spec' + init, consts=dict(SpaceDims='{%s}' % dims, Size=size), inv=inv, workers=workers)


PROPS = {
    'C01': dict(
        bins=['c01'], quick_scale=30, thorough_scale=300,
        laws=[blades(['L01Word', 'L01Assoc', 'L01Gen']), mvs(['TypeInv', 'LDistr', 'LAssoc', 'LUnit'], sigs='SigsC')],
        laws_thorough=[blades(['L01Word', 'L01Assoc'], 4, mindim=4, workers=4), mvs(['LDistr', 'LAssoc'], sigs='SigsA', workers=4)],
        gen=dict(ops=['mul', 'nmul'], rings=['Z'], num=240)),
    'C02': dict(
        bins=['c02'], quick_scale=10, thorough_scale=120,
        laws=[blades(['L02Assoc', 'L02Grade', 'L02Anti', 'L02MeetUnit', 'L02MeetAssoc', 'L02MeetZero']),
              mvs(['TypeInv', 'LWedgeDistr', 'LWedgeAssoc', 'LMeetAssoc'], sigs='SigsC')],
        laws_thorough=[blades(['L02Assoc', 'L02MeetAssoc', 'L02MeetUnit'], 4, mindim=4, workers=4)],
        gen=dict(ops=['wedge', 'meet', 'nwedge', 'nmeet'], rings=['Z'], num=240)),
    'C03': dict(
        bins=['c03'], quick_scale=12, thorough_scale=120,
        laws=[mvs(['TypeInv', 'LModule', 'LRegs'], rings=['Z', 'G', 'R'], sigs='SigsC')],
        gen=dict(ops=['add', 'sub', 'neg', 'scale', 'eq', 'iszero', 'zero', 'one', 'fromscalar', 'set'], rings=['Z'], num=240, depth=14)),
    'C04': dict(
        bins=['c04'], quick_scale=24, thorough_scale=120,
        laws=[mvs(['TypeInv', 'LRegs'], sigs='SigsC')],
        gen=dict(ops=['get', 'set', 'vecpart', 'add', 'sub', 'fromscalar', 'zero'], rings=['Z'], num=300, depth=14)),
    'C05': dict(
        bins=['c05'], quick_scale=24, thorough_scale=120,
        laws=[blades(['L05Sum', 'L05Count'])],
        gen=dict(ops=['grade', 'add', 'sub'], rings=['Z'], num=240, depth=12)),
    'C06': dict(
        bins=['c06'], quick_scale=20, thorough_scale=120,
        laws=[blades(['L06Rev', 'L06Flip', 'L06FlipSub', 'L06Invol', 'L06Word'])],
        laws_thorough=[blades(['L06Rev', 'L06Flip', 'L06FlipSub', 'L06Invol', 'L06Word'], 4, mindim=4, workers=4)],
        gen=dict(ops=['rev', 'flip', 'flipsub', 'mul'], rings=['Z'], num=240)),
    'C07': dict(
        bins=['c07'], quick_scale=20, thorough_scale=120,
        laws=[blades(['L07Inv', 'L07Ps', 'L07Blade'], 4, spec='Spec2')],
        laws_thorough=[blades(['L07Inv', 'L07Ps', 'L07Blade'], 5, mindim=5, spec='Spec2', workers=4)],
        gen=dict(ops=['dual', 'undual', 'nwedge', 'add'], rings=['Z'], num=240)),
    'C08': dict(
        bins=['c08'], quick_scale=16, thorough_scale=120,
        laws=[blades(['L08VDot', 'L08VsDot', 'L08Mag', 'L08CMag'], 4, spec='Spec2'), mvs(['LDot'], sigs='SigsC')],
        gen=dict(ops=['vdot', 'vsdot', 'mag2', 'rev', 'mul', 'add'], rings=['Z'], num=240)),
    'C09': dict(
        bins=['c09'], quick_scale=8, thorough_scale=60,
        laws=[blades(['L09Unique', 'L09Inj', 'L09Shape'], 4, spec='Spec2')],
        laws_thorough=[blades(['L09Unique', 'L09Inj', 'L09Shape'], 5, mindim=5, spec='Spec2', workers=4)]),
    'C10': dict(
        bins=['c10'], quick_scale=12, thorough_scale=120,
        laws=[blades(['L10Hom', 'L10Null'], 3, spec='Spec2')],
        laws_thorough=[blades(['L10Hom', 'L10Null'], 4, mindim=4, spec='Spec2', workers=4)]),
    'C11': dict(
        bins=['c11'], quick_scale=10, thorough_scale=100,
        laws=[blades(['L11Trace', 'L11Flip', 'L11Half'], 3, spec='Spec2')],
        laws_thorough=[blades(['L11Trace', 'L11Flip', 'L11Half'], 4, mindim=4, spec='Spec2', workers=4)]),
    'C12': dict(
        bins=['c12'], quick_scale=20, thorough_scale=150,
        laws=[blades(['L12Unit', 'L12ZeroDiv', 'L12Pole', 'L12Vec', 'L12Unitary'], 4, spec='Spec2')]),
    'C13': dict(
        bins=['c13'], quick_scale=16, thorough_scale=60,
        laws=[blades(['L09Unique', 'L10Hom', 'L13Rev', 'L13Alpha', 'L13Beta'], 3, spec='Spec2')],
        laws_thorough=[blades(['L09Unique', 'L10Hom', 'L13Rev', 'L13Alpha', 'L13Beta'], 4, mindim=4, spec='Spec2', workers=4)]),
    'C14': dict(
        bins=['c14'], quick_scale=2, thorough_scale=20, parts=8,
        laws=[mvs(['LPow', 'LPowBits'], sigs='SigsC'), blades(['L14Unit'], 4, spec='Spec2')]),
    'C15': dict(
        bins=['c15'], quick_scale=3, thorough_scale=20,
        laws=[dict(module='DeclareLaws', spec='Spec', consts=dict(MaxLen=6), inv=['LPartition', 'LTraits', 'LNames', 'LForm'], workers=2)]),
    'C16': dict(
        bins=['c16'], quick_scale=8, thorough_scale=100,
        laws=[euclid('PPH', ['LPga', 'LPoint', 'LIncident', 'LTrans', 'LTransPlane', 'LTransComp'], '1, 2'),
              euclid('PPP', ['LJoin', 'LJoin3'], '1, 2, 3', size=1),
              euclid('HHP', ['LCommon', 'LLine'], '1, 2', size=1)],
        laws_thorough=[euclid('PPH', ['LPoint', 'LIncident', 'LTrans', 'LTransPlane', 'LTransComp'], '3', size=1, workers=4),
                       euclid('HHP', ['LLine'], '3', size=1, workers=4)]),
    'C17': dict(
        bins=['c17'], quick_scale=10, thorough_scale=100,
        laws=[blades(['L17Units', 'L17Conj'], 2, spec='Spec2'), mvs(['LDiv'], rings=['Z', 'G'], sigs='SigsQ')],
        gen=dict(ops=['mul', 'add', 'sub', 'neg', 'scale', 'rev', 'flip', 'set', 'get', 'eq', 'grade', 'pow', 'mag2', 'vdot', 'dual'], rings=['Z'], num=240, depth=12, family='quaternion')),
    'C18': dict(
        bins=['c18'], quick_scale=12, thorough_scale=80,
        laws=[dict(module='TextLaws', spec='Spec', consts=dict(NameSets='{"std", "named"}'), inv=['LInjective', 'LAlternate'], workers=4),
              blades(['L06Word'], 4, spec='Spec2')]),
    'C19': dict(
        bins=['c19'], quick_scale=16, thorough_scale=100,
        laws=[mvs(['TypeInv', 'LDistr', 'LAssoc', 'LUnit', 'LWedgeAssoc', 'LPow'], rings=['H', 'M', 'R'], sigs='SigsC')],
        gen=dict(ops=['mul', 'nmul', 'wedge', 'meet', 'nwedge', 'nmeet', 'add', 'sub', 'neg', 'scale', 'rev', 'flip', 'dual', 'undual',
                      'vdot', 'vsdot', 'mag2', 'pow', 'eq', 'iszero'], rings=['H', 'M'], num=150, limit=300, maxdim=3)),
    'C20': dict(
        bins=['c20'], quick_scale=24, thorough_scale=120,
        laws=[blades(['L20Hom', 'L20Inv'], 4, spec='Spec2')],
        laws_thorough=[blades(['L20Hom', 'L20Inv'], 5, mindim=5, spec='Spec2', workers=4)]),
}
