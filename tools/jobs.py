"""Which jobs decide which property, per tier."""
import os
from runner import M, T, R, P, C, U

SEED = int(os.environ.get('VERIF_SEED') or 1)

COMMON = [
    'TLC, the Java runtime, gcc and the recorders in /verif/harness are trusted to work as documented',
    'the recorders log faithfully (they only call the public interface and print arguments and results)',
]


def assumptions(pid):
    extra = {
        'C02': ['UTF-8 iterators may read the octet at the end position, which is readable and not a continuation octet'],
        'C17': ['spec/data/ucd.json is a faithful copy of the Unicode 9.0 files'],
    }
    return COMMON + extra.get(pid, [])


def jobs(pid, tier):
    q = tier != 'thorough'

    def n(quick, thorough):
        return quick if q else thorough
    W = {'EMIT': '0'}

    def walks():
        return [M('MCCursor')]

    J = {
        'C01': lambda: [
            M('MCCursor'),
            T('rec_cursor', '-mode sweep -variant 0', 'Utf8Sweep', 8, weight=15),
            T('rec_cursor', '-mode session -n %d -max 16 -ops 40' % n(150, 3000), 'CursorTrace', n(4, 8)),
            T('rec_cursor', '-mode every -n %d' % n(150, 2500), 'CursorTrace', n(4, 8)),
            T('rec_cursor', '-mode long -n %d' % n(6, 60), 'Utf8Sweep', n(1, 4)),
            T('rec_grapheme', '-mode slices -n %d -max 8' % n(200, 4000), 'GraphemeTrace', n(2, 8)),
        ] + ([] if q else [T('rec_cursor', '-mode sweep -variant 1', 'Utf8Sweep', 8)]),
        'C02': lambda: [
            R('MCCursor', 'MCCursor', 'cursor'),
            T('rec_cursor', '-mode session -n %d -max 20 -ops 60' % n(300, 5000), 'CursorTrace', 8),
            T('rec_cursor', '-mode sweep -variant 1', 'Utf8Sweep', 8, weight=15),
            T('rec_cursor', '-mode long -n %d' % n(6, 60), 'Utf8Sweep', n(1, 4)),
        ],
        'C03': lambda: [
            R('MCCursor', 'MCCursor', 'cursor'),
            T('rec_cursor', '-mode every -n %d -max 5' % n(500, 6000), 'CursorTrace', 8),
            T('rec_cursor', '-mode sweep -variant 0', 'Utf8Sweep', 8, weight=15),
        ],
        'C05': lambda: [
            R('MCWriter', 'MCWriter', 'writer'),
            T('rec_cursor', '-mode wsession -n %d' % n(400, 6000), 'WriterTrace', 8),
            T('rec_cursor', '-mode wsweep -fill 0', 'Utf8Sweep', 4, weight=12),
            T('rec_cursor', '-mode wsweep -fill 170', 'Utf8Sweep', 4, weight=12),
        ],
        'C06': lambda: bounds('check'),
        'C07': lambda: bounds('enforce'),
        'C08': lambda: [
            T('rec_grapheme', '-mode slices -n %d -max 8' % n(200, 4000), 'GraphemeTrace', n(2, 8)),
            M('MCGraphemeSeek'), M('MCGraphemeSeek', 'MCGraphemeSeekAll'), M('MCGraphemeSeek', 'MCGraphemeSeekMutant', violated=True),
            T('rec_grapheme', '-mode walk -n %d -max 16' % n(1500, 30000), 'GraphemeTrace', 8),
            T('rec_grapheme', '-mode session -n %d -ops 30' % n(120, 2500), 'GraphemeTrace', 8),
            T('rec_grapheme', '-mode long -n %d' % n(4, 40), 'GraphemeTrace', n(1, 4)),
            T('rec_grapheme', '-mode giant -n %d -max 70000' % n(80, 1500), 'GraphemeTrace', n(2, 8)),
        ],
        'C09': lambda: [
            T('rec_grapheme', '-mode bsweep', 'GraphemeTrace', 8),
            T('rec_grapheme', '-mode contexts -len 2', 'GraphemeTrace', 1),
            T('rec_grapheme', '-mode contexts -len 3', 'GraphemeTrace', 8),
            T('rec_grapheme', '-mode walk -n %d -max 20' % n(800, 20000), 'GraphemeTrace', 8),
            T('rec_grapheme', '-mode long -n %d' % n(4, 40), 'GraphemeTrace', n(2, 4)),
            T('rec_grapheme', '-mode giant -n %d -max 70000' % n(80, 1500), 'GraphemeTrace', n(2, 8)),
        ] + ([] if q else [T('rec_grapheme', '-mode contexts -len 4', 'GraphemeTrace', 16)]),
        'C11': lambda: [
            M('MCGraphemeSeek'), M('MCGraphemeSeek', 'MCGraphemeSeekMutant', violated=True), M('MCGraphemeSeek', 'MCGraphemeSeekLive'),
            R('MCGraphemeCursor', 'MCGraphemeCursor', 'grapheme'),
            T('rec_grapheme', '-mode places -n %d -max 8' % n(400, 8000), 'GraphemeTrace', 8),
            T('rec_grapheme', '-mode spots -n %d -max 300' % n(60, 1500), 'GraphemeTrace', 8),
            T('rec_grapheme', '-mode session -n %d -ops 30' % n(60, 1500), 'GraphemeTrace', 8),
            T('rec_grapheme', '-mode giant -n %d -max 70000' % n(80, 1500), 'GraphemeTrace', n(2, 8)),
        ],
        'C12': lambda: [
            R('MCGraphemeCursor', 'MCGraphemeCursor', 'grapheme'),
            T('rec_grapheme', '-mode places -n %d -max 9' % n(500, 9000), 'GraphemeTrace', 8),
            T('rec_grapheme', '-mode spots -n %d -max 300' % n(60, 1500), 'GraphemeTrace', 8),
            T('rec_grapheme', '-mode session -n %d -ops 40' % n(80, 1500), 'GraphemeTrace', 8),
            T('rec_grapheme', '-mode giant -n %d -max 70000' % n(80, 1500), 'GraphemeTrace', n(2, 8)),
        ],
    }

    J.update({
        'C04': lambda: [
            R('MCStrings', 'MCStrings32', 'strings'), M('MCStrings', 'MCStrings8'),
            T('rec_cursor', '-mode esweep -variant 0', 'Utf8Sweep', 4, weight=12),
            T('rec_cursor', '-mode esweep -variant 1', 'Utf8Sweep', 4, weight=12),
            T('rec_strings', '-mode session -kind append32 -n %d -ops 30 -max 16' % n(100, 3000), 'StringsTrace', 8),
            T('rec_strings', '-mode long -n %d' % n(3, 30), 'StringsTrace', n(1, 4)),
        ],
        'C13': lambda: [
            R('MCStrings', 'MCStrings8', 'strings'),
            T('rec_strings', '-mode session -kind append -n %d -ops 30 -max 10' % n(100, 3000), 'StringsTrace', 8),
            T('rec_strings', '-mode session -kind append -n %d -ops 10 -max 120' % n(6, 200), 'StringsTrace', 8),
            T('rec_strings', '-mode cuts -n %d -max 14' % n(300, 8000), 'StringsTrace', 8),
            T('rec_strings', '-mode long -n %d' % n(3, 30), 'StringsTrace', n(1, 4)),
        ],
        'C14': lambda: [
            R('MCStrings', 'MCStrings8', 'strings'), R('MCStrings', 'MCStrings32', 'strings'),
            T('rec_strings', '-mode session -kind appendg -n %d -ops 30 -max 10' % n(100, 3000), 'StringsTrace', 8),
            T('rec_strings', '-mode session -kind appendg -n %d -ops 10 -max 120' % n(6, 200), 'StringsTrace', 8),
            T('rec_strings', '-mode cuts -n %d -max 14' % n(300, 8000), 'StringsTrace', 8),
            T('rec_strings', '-mode long -n %d' % n(4, 30), 'StringsTrace', n(2, 4)),
        ],
        'C15': lambda: [
            P('programs_strings'),
            R('MCStrings', 'MCStrings8', 'strings'), R('MCStrings', 'MCStrings32', 'strings'),
            T('rec_strings', '-mode session -kind values -n %d -ops 50 -max 10' % n(80, 2500), 'StringsTrace', 8),
            T('rec_strings', '-mode session -kind values -n %d -ops 12 -max 200' % n(10, 300), 'StringsTrace', 8),
            T('rec_strings', '-mode session -kind all -n %d -ops 50 -max 16' % n(60, 2500), 'StringsTrace', 8),
        ],
    })

    def norm(f, extra=()):
        e = {'WHAT': 'form'}
        a = '-form ' + f + ' '

        def t(args, shards, **kw):
            return T('rec_norm', a + args, 'NormTrace', shards, env=e, **kw)
        return [
            R('MCPipeline', n('MCPipeline', 'MCPipelineDeep'), 'pipeline', env={'FORM': f}, timeout=850),
            t('-mode single', 8),
            t('-mode pairs -percent %d' % n(20, 100), 8, weight=8),
            t('-mode composites -n %d' % n(1200, 30000), 8),
            t('-mode hangul -n %d -max 8' % n(800, 15000), n(4, 8)),
            t('-mode random -n %d -max 10' % n(800, 20000), 8),
            t('-mode marks -n %d -max 80' % n(60, 1000), n(4, 8)),
            t('-mode marks -n %d -max 600' % n(6, 60), n(4, 8)),
            t('-mode long -n %d' % n(4, 40), n(2, 8)),
            t('-mode runs -n %d -max 70000' % n(100, 2000), n(2, 8)), M('MCRuns'),
            t('-mode chain -n %d -max 8' % n(150, 3000), n(2, 8)),
            t('-mode steps -n %d -max 12' % n(500, 10000), n(4, 8)),
        ] + ([t('-mode known', 1)] if f == 'kc' else [])

    J.update({
        'C10': lambda: [
            T('rec_grapheme', '-mode storages -n %d -max 14' % n(300, 8000), 'GraphemeTrace', 8),
            T('rec_norm', '-mode storages -n %d -max 8' % n(250, 6000), 'NormTrace', 8, env={'WHAT': 'same'}),
            T('rec_cursor', '-mode every -n %d -max 6' % n(200, 3000), 'CursorTrace', n(4, 8)),
            T('rec_strings', '-mode session -kind append32 -n %d -ops 30 -max 16' % n(40, 1000), 'StringsTrace', 4),
        ],
        'C16': lambda: [
            R('MCFilter', 'MCFilter', 'filtering'),
            T('rec_filter', '-mode random -n %d -max 10' % n(1200, 30000), 'FilterTrace', 8),
            T('rec_filter', '-mode long -n %d' % n(20, 200), 'FilterTrace', n(2, 8)),
        ],
        'C17': lambda: [T('rec_props', '-mode gcb -order %d' % o, 'PropsTrace', 8, env={'WHAT': 'all'}) for o in (0, 1, 2)],
        'C18': lambda: [T('rec_props', '-mode ccc -order %d' % o, 'PropsTrace', 8, env={'WHAT': 'all'}) for o in (0, 1, 2)],
        'C19': lambda: [T('rec_props', '-mode dec -order %d' % o, 'PropsTrace', 8, env={'WHAT': 'all'}) for o in (0, 1)],
        'C20': lambda: [T('rec_props', '-mode kdec -order %d' % o, 'PropsTrace', 8, env={'WHAT': 'all'}) for o in (0, 1)],
        'C21': lambda: [T('rec_props', '-mode comp -lv 100 -n %d' % n(10000000, 400000000), 'PropsTrace', n(8, 32), env={'WHAT': 'all'})],
        'C22': lambda: norm('d'),
        'C23': lambda: norm('c'),
        'C24': lambda: norm('kd'),
        'C25': lambda: norm('kc'),
        'C26': lambda: [
            M('MCPipeline', n('MCPipeline', 'MCPipelineDeep'), timeout=850),
            T('rec_norm', '-mode laws -n %d -max 8' % n(700, 20000), 'NormTrace', 8, env={'WHAT': 'laws'}),
        ],
        'C27': lambda: [
            M('MCPipeline'),
            T('rec_norm', '-mode random -n %d -max 10' % n(600, 15000), 'NormTrace', 8, env={'WHAT': 'count'}),
            T('rec_norm', '-mode composites -n %d' % n(600, 15000), 'NormTrace', 8, env={'WHAT': 'count'}),
            T('rec_norm', '-mode hangul -n %d -max 8' % n(300, 8000), 'NormTrace', n(4, 8), env={'WHAT': 'count'}),
            T('rec_norm', '-mode marks -n %d -max 80' % n(40, 600), 'NormTrace', n(2, 8), env={'WHAT': 'count'}),
            T('rec_norm', '-mode chain -n %d -max 10' % n(200, 4000), 'NormTrace', n(4, 8), env={'WHAT': 'count'}),
            T('rec_norm', '-mode long -n %d' % n(4, 40), 'NormTrace', n(2, 8), env={'WHAT': 'count'}),
            T('rec_norm', '-mode runs -n %d -max 70000' % n(60, 1000), 'NormTrace', n(2, 8), env={'WHAT': 'count'}),
            T('rec_norm', '-mode single', 'NormTrace', 8, env={'WHAT': 'count'}),
            T('rec_props', '-mode dec -order 0', 'PropsTrace', n(4, 8), env={'WHAT': 'count'}),
            T('rec_props', '-mode kdec -order 0', 'PropsTrace', n(4, 8), env={'WHAT': 'count'}),
        ],
    })

    J.update({
        'C28': lambda: [
            M('MCAccess', n('MCAccess', 'MCAccessDeep')), M('MCAccess', 'MCAccessMutant', violated=True), M('MCAccess', 'MCAccessLive'),
            M('MCGraphemeSeek'), M('MCBounds'),
            T('rec_access', '-mode sizes -len %d' % n(3, 5), 'AccessTrace', n(4, 8), optional=True),
            T('rec_access', '-mode cursor -n %d -max 7' % n(12, 400), 'AccessTrace', 8, optional=True),
            T('rec_access', '-mode whole -n %d -max 12' % n(60, 2000), 'AccessTrace', 8, optional=True),
            T('rec_bounds', '-mode classes -len %d' % n(4, 5), 'BoundsTrace', 8, env={'WHAT': 'access'}),
            T('rec_bounds', '-mode tails', 'BoundsTrace', 4, env={'WHAT': 'access'}),
            T('rec_bounds', '-mode slices -n %d' % n(600, 20000), 'BoundsTrace', 4, env={'WHAT': 'access'}),
        ] + [T(rec, args, 'MemoryTrace', k, flavour='asan', weight=12) for rec, args, k in [
            ('rec_cursor', '-mode session -n %d -max 16 -ops 40' % n(200, 3000), 2),
            ('rec_cursor', '-mode wsession -n %d' % n(200, 3000), 1),
            ('rec_cursor', '-mode esweep -variant 0', n(1, 2)),
            ('rec_grapheme', '-mode walk -n %d -max 16' % n(600, 9000), 2),
            ('rec_grapheme', '-mode places -n %d -max 8' % n(150, 2500), 1),
            ('rec_norm', '-mode random -n %d -max 10' % n(400, 9000), 2),
            ('rec_norm', '-mode hangul -n %d -max 8' % n(200, 4000), 1),
            ('rec_norm', '-mode marks -n %d -max 80' % n(40, 600), 1),
            ('rec_norm', '-mode single', n(2, 4)),
            ('rec_props', '-mode gcb -order 2', 1), ('rec_props', '-mode ccc -order 2', 1), ('rec_props', '-mode kdec -order 0', 1), ('rec_props', '-mode dec -order 0', 1),
            ('rec_strings', '-mode session -kind all -n %d -ops 50 -max 16' % n(60, 1500), 2),
            ('rec_strings', '-mode cuts -n %d -max 14' % n(150, 3000), 1),
            ('rec_bounds', '-mode slices -n %d' % n(600, 9000), 1),
            ('rec_wide', '-mode random -n %d' % n(150, 4000), 1),
            ('rec_wide', '-mode texts -n %d' % n(80, 2000), 1),
            ('rec_pages', '-mode pages -n %d -max 12' % n(80, 2000), 1),
            ('rec_algos', '-mode writes -n %d -max 10' % n(300, 6000), 1),
            ('rec_filter', '-mode random -n %d -max 10' % n(200, 4000), 1),
        ]],
        'C30': lambda: [
            M('MCAccess', n('MCAccessAny', 'MCAccessAnyDeep')), M('MCAccess', n('MCAccess', 'MCAccessDeep')), M('MCBounds'),
            T('rec_access', '-mode octets -len 3', 'AccessTrace', 1, optional=True),
            T('rec_access', '-mode octets -len 4', 'AccessTrace', 1, optional=True),
            T('rec_access', '-mode octets -len %d' % n(5, 7), 'AccessTrace', n(4, 8), optional=True),
            T('rec_access', '-mode tails', 'AccessTrace', n(2, 4), optional=True),
            T('rec_access', '-mode anyoctets -n %d' % n(300, 6000), 'AccessTrace', n(4, 8), optional=True),
            T('rec_grapheme', '-mode slices -n %d -max 6' % n(500, 8000), 'GraphemeTrace', n(4, 8)),
            T('rec_grapheme', '-mode slices -n %d -max 20' % n(200, 4000), 'GraphemeTrace', n(4, 8)),
        ],
        'C29': lambda: [
            M('MCThreads'), M('MCThreads', 'MCThreadsMutant', violated=True),
            T('rec_threads', '-mode early', 'ThreadsTrace', 1),
            T('rec_threads', '-mode history -n %d -rounds %d' % (n(1500, 4000), n(40, 300)), 'ThreadsTrace', n(4, 8)),
            T('rec_threads', '-mode threads -n %d -rounds %d -threads 8' % (n(700, 1500), n(60, 400)), 'ThreadsTrace', n(2, 8), weight=20),
            T('rec_threads', '-mode threads -n %d -rounds %d -threads 4' % (n(400, 1000), n(6, 30)), 'ThreadsTrace', n(1, 4), flavour='tsan', optional=True, weight=20),
        ] + [T(rec, args, 'MemoryTrace', k, flavour='memcheck', optional=True, weight=12) for rec, args, k in [
            ('rec_cursor', '-mode session -n %d -max 10 -ops 30' % n(60, 1500), 1),
            ('rec_cursor', '-mode wsession -n %d' % n(60, 1500), 1),
            ('rec_codepoint', '-mode session -n %d -ops 40' % n(60, 1500), 1),
            ('rec_grapheme', '-mode walk -n %d -max 12' % n(150, 3000), 1),
            ('rec_grapheme', '-mode session -n %d -max 8 -ops 30' % n(60, 1500), 1),
            ('rec_norm', '-mode random -n %d -max 10' % n(300, 6000), n(1, 2)),
            ('rec_norm', '-mode hangul -n %d -max 8' % n(100, 2000), 1),
            ('rec_norm', '-mode marks -n %d -max 60' % n(20, 300), 1),
            ('rec_strings', '-mode session -kind all -n %d -ops 40 -max 12' % n(30, 800), 1),
            ('rec_bounds', '-mode slices -n %d' % n(200, 4000), 1),
            ('rec_bounds', '-mode random -n %d' % n(200, 4000), 1),
            ('rec_wide', '-mode random -n %d' % n(60, 1500), 1),
            ('rec_pages', '-mode pages -n %d -max 12' % n(40, 1000), 1),
            ('rec_algos', '-mode ranges -n %d -max 10' % n(100, 2000), 1),
            ('rec_algos', '-mode writes -n %d -max 10' % n(100, 2000), 1),
            ('rec_filter', '-mode random -n %d -max 10' % n(100, 2000), 1),
        ]],
    })

    J.update({
        'C31': lambda: [
            M('MCWide'),
            T('rec_wide', '-mode edges', 'WideTrace', 8),
            T('rec_wide', '-mode random -n %d' % n(400, 12000), 'WideTrace', 8),
            T('rec_wide', '-mode lookup -n %d' % n(2000, 60000), 'WideTrace', n(4, 8)),
            T('rec_wide', '-mode texts -n %d' % n(300, 8000), 'WideTrace', 8),
        ],
        'C32': lambda: [
            M('MCCursor'),
            T('rec_algos', '-mode ranges -n %d -max 10' % n(3000, 80000), 'AlgosTrace', 8),
            T('rec_algos', '-mode ranges -n %d -max 60' % n(600, 12000), 'AlgosTrace', n(4, 8)),
            T('rec_algos', '-mode long -n %d -max 200000' % n(120, 2000), 'AlgosTrace', n(2, 8)),
            T('rec_algos', '-mode writes -n %d -max 10' % n(2000, 40000), 'AlgosTrace', n(4, 8)),
        ],
        'C34': lambda: [M('MCCodepoint'), T('rec_codepoint', '-n %d' % n(300, 8000), 'CodepointTrace', 4)],
        'C35': lambda: [
            M('MCPipeline'),
            T('rec_norm', '-mode build -n %d -max 10' % n(600, 15000), 'NormTrace', 8, env={'WHAT': 'form'}),
            T('rec_norm', '-mode custom -n %d -max 8' % n(600, 15000), 'NormTrace', n(2, 4), env={'WHAT': 'form'}),
            T('rec_norm', '-mode steps -n %d -max 12' % n(500, 10000), 'NormTrace', n(4, 8), env={'WHAT': 'form'}),
        ],
        'C37': lambda: [M('MCGenerate', n('MCGenerate', 'MCGenerateDeep')), M('MCGenerate', 'MCGenerateLive')] + [
            T('rec_props', '-mode %s -n 0 -lv %d' % (m, n(0, 10)), 'PropsTrace', sh, env={'WHAT': 'all'}, db='real')
            for m, sh in (('gcb', 1), ('ccc', 1), ('dec', 1), ('kdec', 1), ('comp', 4))
        ] + [
            t for k in range(n(8, 32)) for t in
            [T('rec_props', '-mode %s -order %d -n 0 -lv 0' % (m, k % 2), 'PropsTrace', 1, env={'WHAT': 'all'}, db='made-%d' % (SEED * 100 + k))
             for m in ('gcb', 'ccc', 'dec', 'kdec', 'comp')] +
            [T('rec_grapheme', '-mode walk -n %d -max 16' % n(150, 2000), 'GraphemeTrace', 1, db='made-%d' % (SEED * 100 + k)),
             T('rec_norm', '-mode steps -n %d -max 12' % n(150, 2000), 'NormTrace', 1, env={'WHAT': 'form'}, db='made-%d' % (SEED * 100 + k))]
        ],
        'C36': lambda: [
            M('MCPages'),
            T('rec_pages', '-mode pages -n %d -max 12' % n(500, 12000), 'PagesTrace', 8),
            T('rec_pages', '-mode blocks -n %d -max 12' % n(500, 12000), 'PagesTrace', n(4, 8)),
            T('rec_pages', '-mode pages -n %d -max 60' % n(40, 1000), 'PagesTrace', n(4, 8)),
        ],
        'C38': lambda: [
            M('MCPrograms', n('MCPrograms', 'MCProgramsDeep')),
            T('rec_programs', '-n %d -max 10' % n(60, 1500), 'ProgramsTrace', 8),
            T('rec_programs', '-n %d -max 200' % n(6, 150), 'ProgramsTrace', n(2, 8)),
        ],
        'C39': lambda: [
            M('MCFaults', n('MCFaults', 'MCFaultsDeep')), M('MCFaults', 'MCFaultsMutant', violated=True),
            T('rec_faults', '-n %d -max 8' % n(200, 6000), 'FaultsTrace', 8),
            T('rec_faults', '-n %d -max 60' % n(15, 400), 'FaultsTrace', n(4, 8)),
        ],
        'C40': lambda: [M('MCCursor')] + [t for fl in n(('gcc20u', 'clang17'), ('gcc20u', 'clang17', 'clang23u', 'gcc17')) for t in ways(fl)],
        'C41': lambda: [M('MCNative', n('MCNative', 'MCNativeDeep')), M('MCNative', 'MCNativeMutant', violated=True)] + apart('apart') + apart('units'),
        'C42': lambda: [M('MCHeaders', n('MCHeaders', 'MCHeadersDeep'))] +
                       [M('MCHeaders', 'MCHeaders_' + w, violated=True, workers=1) for w in ('guards', 'cycles', 'needs', 'strong')] +
                       [U('programs_units', 'UnitsTrace', n(0, 120), n(5, 20), n((('g++', 'c++1y'),), (('g++', 'c++1y'), ('clang++', 'c++17'), ('g++', 'c++20'))))],
        'C43': lambda: [
            M('MCReach', n('MCReach', 'MCReachDeep')), M('MCReach', 'MCReachMutant', violated=True, workers=1), M('MCBounds'), M('MCGraphemeSeek'),
            T('rec_reach', '-mode near -n %d' % n(12, 300), 'ReachTrace', 8, optional=True),
            T('rec_reach', '-mode passes -n %d' % n(10, 200), 'ReachTrace', 8, flavour='steps'),
        ],
        'C33': lambda: [C('programs_types', 'TypesTrace')],
    })

    def ways(fl):
        return [T(rec, args, mod, k, env={'WHAT': what} if what else None, flavour=fl, optional=True) for rec, args, mod, what, k in [
            ('rec_cursor', '-mode session -n %d -max 16 -ops 40' % n(60, 1500), 'CursorTrace', '', n(1, 4)),
            ('rec_cursor', '-mode every -n %d -max 5' % n(80, 1500), 'CursorTrace', '', n(1, 4)),
            ('rec_cursor', '-mode wsession -n %d' % n(100, 2000), 'WriterTrace', '', n(1, 4)),
            ('rec_cursor', '-mode esweep -variant 1', 'Utf8Sweep', '', n(2, 4)),
            ('rec_cursor', '-mode sweep -variant 1', 'Utf8Sweep', '', n(4, 8)),
            ('rec_grapheme', '-mode walk -n %d -max 16' % n(300, 6000), 'GraphemeTrace', '', n(1, 4)),
            ('rec_grapheme', '-mode session -n %d -ops 30' % n(40, 800), 'GraphemeTrace', '', n(1, 4)),
            ('rec_grapheme', '-mode bsweep', 'GraphemeTrace', '', n(2, 8)),
            ('rec_norm', '-mode random -n %d -max 10' % n(300, 6000), 'NormTrace', 'ways', n(2, 4)),
            ('rec_norm', '-mode hangul -n %d -max 8' % n(100, 3000), 'NormTrace', 'ways', n(1, 4)),
            ('rec_norm', '-mode steps -n %d -max 12' % n(100, 3000), 'NormTrace', 'ways', 1),
            ('rec_strings', '-mode session -kind all -n %d -ops 40 -max 12' % n(60, 1500), 'StringsTrace', '', n(1, 4)),
            ('rec_bounds', '-mode slices -n %d' % n(500, 9000), 'BoundsTrace', 'enforce', n(1, 4)),
            ('rec_bounds', '-mode tails', 'BoundsTrace', 'check', n(1, 4)),
            ('rec_codepoint', '-n %d' % n(80, 2000), 'CodepointTrace', '', 1),
            ('rec_wide', '-mode random -n %d' % n(100, 3000), 'WideTrace', '', n(1, 4)),
            ('rec_algos', '-mode ranges -n %d -max 10' % n(300, 8000), 'AlgosTrace', '', n(1, 4)),
            ('rec_algos', '-mode writes -n %d -max 10' % n(300, 8000), 'AlgosTrace', '', n(1, 4)),
            ('rec_filter', '-mode random -n %d -max 10' % n(200, 6000), 'FilterTrace', '', n(1, 4)),
            ('rec_props', '-mode gcb -order 0', 'PropsTrace', 'all', n(1, 4)),
            ('rec_props', '-mode ccc -order 0', 'PropsTrace', 'all', n(1, 4)),
            ('rec_props', '-mode kdec -order 0', 'PropsTrace', 'all', n(1, 4)),
        ]]

    def apart(fl):
        return [T(rec, args, mod, k, env={'WHAT': what} if what else None, flavour=fl, optional=True) for rec, args, mod, what, k in [
            ('rec_cursor', '-mode session -n %d -max 16 -ops 40' % n(75, 1500), 'CursorTrace', '', n(2, 4)),
            ('rec_cursor', '-mode every -n %d -max 5' % n(75, 1500), 'CursorTrace', '', n(2, 4)),
            ('rec_cursor', '-mode wsession -n %d' % n(100, 2500), 'WriterTrace', '', n(1, 4)),
            ('rec_bounds', '-mode slices -n %d' % n(250, 4500), 'BoundsTrace', 'enforce', n(1, 4)),
            ('rec_bounds', '-mode tails', 'BoundsTrace', 'check', n(2, 4)),
            ('rec_bounds', '-mode classes -len %d' % n(3, 5), 'BoundsTrace', 'check', n(1, 4)),
            ('rec_grapheme', '-mode walk -n %d -max 16' % n(250, 4500), 'GraphemeTrace', '', n(2, 4)),
            ('rec_grapheme', '-mode places -n %d -max 8' % n(50, 1000), 'GraphemeTrace', '', n(2, 4)),
            ('rec_grapheme', '-mode session -n %d -ops 30' % n(50, 750), 'GraphemeTrace', '', n(1, 4)),
            ('rec_norm', '-mode random -n %d -max 10' % n(200, 4500), 'NormTrace', 'ways', n(2, 4)),
            ('rec_norm', '-mode hangul -n %d -max 8' % n(50, 1500), 'NormTrace', 'ways', n(1, 4)),
            ('rec_norm', '-mode chain -n %d' % n(50, 1500), 'NormTrace', 'ways', n(1, 4)),
            ('rec_norm', '-mode build -n %d -max 8' % n(75, 2000), 'NormTrace', 'ways', n(1, 4)),
            ('rec_strings', '-mode session -kind all -n %d -ops 40 -max 12' % n(50, 1250), 'StringsTrace', '', n(2, 4)),
            ('rec_strings', '-mode cuts -n %d -max 14' % n(75, 2000), 'StringsTrace', '', n(2, 4)),
            ('rec_algos', '-mode ranges -n %d -max 10' % n(200, 4500), 'AlgosTrace', '', n(1, 4)),
        ]]

    def bounds(what):
        e = {'WHAT': what}
        return [
            M('MCBounds', 'MCBoundsLive'),
            R('MCBounds', 'MCBounds', 'bounds'),
            T('rec_bounds', '-mode octets -pairstep %d' % n(3, 1), 'BoundsTrace', 8, env=e),
            T('rec_bounds', '-mode classes -len %d' % n(4, 6), 'BoundsTrace', n(8, 16), env=e),
            T('rec_bounds', '-mode tails', 'BoundsTrace', 4, env=e),
            T('rec_bounds', '-mode slices -n %d' % n(1000, 20000), 'BoundsTrace', n(4, 8), env=e),
            T('rec_bounds', '-mode random -n %d' % n(1000, 20000), 'BoundsTrace', n(4, 8), env=e),
            M('MCOctetRuns'), T('rec_bounds', '-mode giant -n %d -max 300000' % n(300, 4000), 'BoundsTrace', n(2, 4), env=e),
        ]
    return J[pid]()




_SWEEP = 'exhaustive over all 1,114,112 codepoints'
LEVEL = {
    'C01': _SWEEP + ' as the middle of a text at every octet; longer texts and operation sequences are random samples (seeded)',
    'C02': 'every operation from every position of all texts of up to 4 codepoints of one per encoded size (model, replayed in the code); random sessions over any codepoints',
    'C03': 'every pair of octet positions of all texts of up to 4 codepoints of one per encoded size (replayed); ' + _SWEEP + ' in one context; random texts',
    'C04': _SWEEP + '; sequences, prefixes and lengths are random samples',
    'C05': _SWEEP + ' into two fillings; all write sequences of the small model replayed in the code; random sessions',
    'C06': 'all octet strings of up to 2 octets (a third of the pairs in the quick tier), all strings over 9 representative octets up to a length, every lead octet at every distance from the end; random strings and slices',
    'C07': 'as C06, and slices of well-formed texts in memory that goes on before and after',
    'C08': 'model: all class sequences up to a length; code: random and class-covering texts in all four storages, each walk in four ways',
    'C09': 'the complete 18 x 18 table of classes, every codepoint next to a representative of every class on both sides, all sequences of 3 classes; longer contexts sampled',
    'C11': 'model and replay: all positions of all short class sequences; code: random texts at every octet',
    'C12': 'model and replay: all pairs of iterators over all short class sequences; code: all pairs of octets of random texts',
    'C13': 'model and replay: all ranges over all pairs of short texts; code: every cut of random texts, sessions with self-append and views',
    'C14': 'as C13 with grapheme iterators',
    'C10': 'the same random texts in all four storages (graphemes) and all eight pairs of input and output storages (normalization)',
    'C16': 'model and replay: all short ranges with all sequences of returned values; code: random ranges of many container types, long ranges',
    'C17': _SWEEP + ', in rising, falling and random order',
    'C18': _SWEEP + ', in rising, falling and random order',
    'C19': _SWEEP + ', in rising and falling order',
    'C20': _SWEEP + ', in rising and falling order',
    'C21': 'all codepoints as first with everything that is a second anywhere, everything that is a first anywhere with all codepoints as second (Hangul included); other pairs sampled',
    'C22': _SWEEP + ' alone; all short texts over a representative alphabet replayed from the model; pairs, mark runs, Hangul, long texts sampled',
    'C26': 'the laws themselves on all short texts of the model; results of the code on random texts and equivalents of them',
    'C27': _SWEEP + ' alone; random texts and chains of texts into one output',
    'C28': 'model: every operation at every octet of all short texts; code: every access of the operations seen through a probing native string on short texts and random ones, and the recorders under AddressSanitizer',
    'C29': 'model: all interleavings of two threads of two jobs; code: results in a fresh process against long random histories and 8 threads at once (random schedules), ThreadSanitizer, and memcheck for values never set',
    'C30': 'model: every operation at every octet of all accepted sequences of octet classes up to five octets; code: the same sequences and random longer ones through a probing native string, random slices of text repaired and walked in place',
    'C31': 'model: the scheme at and around every power of two and on short texts; code: values at and around every power of two and random ones, alone and in texts; lookups of random 32 bit integers',
    'C32': 'about forty algorithms on random ranges of random texts in all storages',
    'C33': 'every pair of the four text types in every operation, sixteen unit types in every kind of iterator; each is compiled, nothing else is tried',
    'C34': 'model: all operations on three objects over six values; code: random sessions over four objects and any integers',
    'C35': 'random texts, ranges, outputs and resolver tables; the pipeline model over all short texts',
    'C36': 'model: all texts of up to five units of up to four native units, all limits; code: random texts and limits in all storages',
    'C38': 'model: all chains of three programs over all texts of up to two (thorough: three) of ten codepoints; code: the programs in examples run on random arguments and in random chains',
    'C39': 'model: failures at every step of operations over all short outputs, begun again up to twice; code: every allocation of random operations refused in turn, alone and with all that follow; a function given to the filter throwing at every call',
    'C40': 'the recorders built with other compilers (g++, clang++), standards (C++14 to C++23), optimization levels and signedness of char; random texts and operations, ' + _SWEEP + ' for codepoints and properties',
    'C41': 'model: all texts of up to four (thorough six) codepoints of one per size, every octet three (five) addresses after the last; code: random texts, slices, sessions and forms in strings and views whose units have rubbish between them',
    'C42': 'model: all ways three headers can include and use each other, all source files of up to three includes, two files; code: every header alone, all together in five orders, twenty random lists of headers; random texts',
    'C43': 'model: passes over all texts of up to ten (thorough fourteen) codepoints, graphemes anyhow; code: single operations at random positions of random texts of up to a hundred codepoints, passes over texts of two to eight thousand codepoints in all storages',
    'C37': 'model: all databases of three mapped codepoints in every order of the keys; code: the repository database and eight made-up ones per seed, every codepoint looked up, pairs from both sides of every composition',
    'C15': 'model and replay: every operation from every pair of short contents; code: random sessions over six objects',
}


for _p in ('C23', 'C24', 'C25'):
    LEVEL[_p] = LEVEL['C22']


def level_note(pid):
    return LEVEL[pid] + '. Trusts TLC, the compiler and the recorders; nothing is proved beyond what was explored.'
