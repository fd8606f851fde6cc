#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + '/lib', V + '/checks']

P = []


def prop(id, title, statement, over, text, why, files, mech, observe=(), state=(), technique='', note='', hook=None):
    assert len(title) <= 80, (id, len(title))
    assert statement.count('. ') <= 2, (id, 'sentences')
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                                observe_at=list(observe), state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                                hook_needed=hook)), technique, note))


NOTEST = 'The existing tests run a few decoders and scripts on sample files; none of them '

PIPE = 'the fork-server driver feeds raw frames to the real receiver (frame parser, product control, processor thread, spool)'

prop('C01', 'Products are reassembled exactly and incomplete ones are never delivered',
     'A product is stored and announced exactly when all of its blocks arrived in order in its channel, and then its stored '
     'bytes are the concatenation of the blocks that were sent, once. A product with a lost, repeated, damaged or out of '
     'order block, or cut off by the start of another product or the end of another one in its channel, is never stored or '
     'announced but is recorded once in the missing-products log, and an aborted one leaves no trace. Products of '
     'different channels never affect each other, whatever the interleaving of their frames and of the reader threads.',
     ['inputs', 'histories', 'schedules', 'fault_sequences'],
     'All sequences of frames in up to eight channels, all interleavings of the channels, and every pattern of lost, '
     'repeated, swapped, damaged, truncated and aborted frames.',
     NOTEST + 'feeds frames to the receiver; the property ranges over fault patterns and interleavings.',
     ['src/framep.c', 'src/pctl.c', 'src/pctldb.c', 'src/nbsp.c', 'src/mfile.c'],
     [('frame state machine', 'src/framep.c: sbnframeproc and below'), ('product control elements', 'src/pctl.c'),
      ('product processing', 'src/nbsp.c: process_pctl_element, pce_spool_product')],
     ['spool directory', 'filter and server queues', 'missing-products log'],
     technique='stateful property-based testing: generated frame histories with injected faults, sequential and with one '
     'thread per channel, against a reference model of the receiver; shrinking',
     note='Random search over generated histories of up to 8 channels x 5 products x 6 frames; thread schedules are sampled, not enumerated.')

prop('C02', 'Only well-formed frames are accepted, and they are decoded exactly',
     'A received frame is accepted exactly when its header checksum, its declared sizes and the size of what was received '
     'agree and its control header is large enough; every field, the control header and the data block are then decoded '
     'exactly as transmitted, decompressing only what is needed to find the product header. No sequence of received bytes '
     'makes the program read outside the frame, crash or hang.',
     ['inputs', 'histories'], 'All byte strings up to the size of the receive buffer, in any order.',
     NOTEST + 'parses a frame.',
     ['src/sbn.c', 'src/framep.c', 'src/unz.c'],
     [('frame parser', 'src/sbn.c: sbn_unpack_frame'), ('WMO header parser', 'src/sbn.c: split_wmo_header'),
      ('decompression', 'src/unz.c')],
     ['decoded frame fields', 'acceptance status'],
     technique='property-based fuzzing: structured frames with mutations of every header field against an independent '
     'reference parser, with AddressSanitizer and poisoned bytes after the frame',
     note='Random search; frames up to 5200 bytes.')

prop('C03', 'Every product is named, filed and announced from its own headers',
     'Every accepted product is filed under the directory of its (lower case) station as station_id[-awips|+other].time_seq, '
     'where id, station, time and the optional AWIPS name or other word come from the WMO header lines of that product and '
     'seq is its sequence number. Its announcements carry that name without time and number, that path, and its own '
     'sequence number, type, category, code and channel. A product whose header does not have that form is dropped and '
     'never stored under any name.',
     ['inputs', 'histories'], 'All product headers (with or without control header, communications block, AWIPS line, '
     'compression), in any sequence.',
     NOTEST + 'names a product from received data.',
     ['src/sbn.c', 'src/framep.c', 'src/packfp.c', 'src/nbsp.c'],
     [('header parser', 'src/sbn.c: split_wmo_header'), ('name construction', 'src/framep.c'),
      ('announcement packing', 'src/packfp.c')],
     ['spool paths', 'announcement packets'],
     technique='property-based testing: generated headers through the whole receiver against a reference header parser',
     note='Random search over header shapes, up to 24 products per run.')

prop('C04', 'Stored products have exactly the transmitted bytes in the configured format',
     'A compressed product is stored decompressed, block by block and without its separate header block, unless its name is '
     'accepted by the list of products to keep compressed (or it has no separate header), and then its bytes are stored as '
     'transmitted. The communications control block is kept or removed as configured, in every kind of spool. A product '
     'that cannot be decompressed is neither stored nor announced, and the memory spools hold the same bytes as the file '
     'spool would.',
     ['inputs', 'configurations'], 'All products (any compression, block sizes and layout), storage formats, keep-compressed '
     'lists and spool kinds.',
     NOTEST + 'stores a received product.',
     ['src/nbsp.c', 'src/mfile.c', 'src/unz.c', 'src/nbspmspoolbdb.c'],
     [('storage of a product', 'src/nbsp.c: pce_spool_product, pce_mcat_frames, pce_cat_frames')],
     ['spool files', 'memory spool reads'],
     technique='property-based testing: generated products and configurations through the whole receiver against a reference '
     'model of the stored bytes',
     note='Random search; spool kinds 1 to 3 (the kinds 4 and 5 are documented as not operational).')

prop('C05', 'A retransmission is processed exactly when its original was not delivered',
     'A complete retransmission is processed exactly when the original is not on record as received: it is ignored if the '
     'original, or an earlier retransmission of the same chain, was received, and recovers it if the original was missed. '
     'Its sequence number then counts as received for further retransmissions, the record forgets only what is older than '
     'the last two expiries, and products outside the configured list, or all of them when the record is disabled, follow '
     'the configured default. Every complete retransmission is logged and counted once under its fate.',
     ['histories', 'configurations', 'fault_sequences'], 'All histories of originals, lost frames, retransmissions of '
     'retransmissions and expiries; all settings of the record.',
     NOTEST + 'involves a retransmission.',
     ['src/nbsp.c', 'src/rtxdb.c', 'src/framep.c', 'src/stats.c'],
     [('retransmission decision', 'src/nbsp.c: process_pctl_element'), ('two-generation record', 'src/rtxdb.c')],
     ['spool', 'retransmission log', 'status file'],
     technique='stateful property-based testing: generated histories against a reference model of the record',
     note='Random search over histories of up to 14 events.')

prop('C06', 'The reception statistics and the missing log account for every frame and product',
     'Over any history of frames, each line of the status file gives exactly the frames received, processed, bad and lost '
     'in that period and the bytes in them, and the products started, completed, missed, rejected, aborted, undecodable '
     'and retransmitted in that period. The missing-products log has exactly one line for each product that was started and '
     'not completed, with its own number, type, channel and name.',
     ['histories', 'fault_sequences'], 'All frame histories with losses, damage, jumps in the frame numbers, rejected and '
     'aborted products, over any number of report periods.',
     NOTEST + 'reads a counter.',
     ['src/stats.c', 'src/framep.c', 'src/nbsp.c'],
     [('counters', 'src/stats.c'), ('frame events', 'src/framep.c')],
     ['status file', 'missing-products log'],
     technique='stateful property-based testing: generated frame histories, the status file is compared with a reference model',
     note='One reader at a time: the counters are not atomic across reader threads.')

prop('C07', 'The file spool holds exactly the newest products, up to the configured number',
     'With the spool limited to N files, after any history of stored products the spool directory holds exactly the N '
     'products stored last, and nothing else is ever removed. This continues across a stop and restart, also with a larger '
     'N, and a saved state that does not fit the configuration or was cut short is refused instead of used.',
     ['histories', 'configurations', 'fault_sequences'], 'All histories of stores and restarts, all N and changes of N, '
     'all truncations of the saved state.',
     NOTEST + 'fills the spool or restarts the program.',
     ['src/spooldb.c', 'src/nbsp.c'],
     [('circular array of paths', 'src/spooldb.c'), ('its use by the processor', 'src/nbsp.c: nbsp_spooldb_*')],
     ['spool directory', 'saved state file'],
     technique='stateful property-based testing: histories with restarts against a ring model, on the library and on the '
     'whole receiver',
     note='Products of one history have distinct paths.')

prop('C08', 'The memory spool returns what was stored and evicts only the oldest products',
     'A product read from the memory spool is byte for byte the one stored last under that key, whatever is stored, '
     'evicted or cleared while it is open and however many readers share the spool. Products are evicted oldest store '
     'first and only when the current store has no room, one that does not fit in a store is refused without disturbing '
     'the others, and a reader is never left waiting while a read slot is free.',
     ['histories', 'schedules', 'configurations'], 'All histories of stores, opens, partial reads, closes and clearings, '
     'all sizes, and all schedules of writers and readers.',
     'The existing tests store and read a few records in one sequence each.',
     ['src/libspoolbdb/mspoolbdb.c', 'src/libspoolbdb/spoolbdbv.c', 'src/libspoolbdb/spoolbdb.c',
      'src/libspoolbdb/spoolslots.c'],
     [('ring of stores', 'src/libspoolbdb/spoolbdbv.c'), ('read slots', 'src/libspoolbdb/spoolslots.c')],
     ['read results'],
     technique='stateful property-based testing against a ring-of-stores model; generated concurrent readers and writers with '
     'self-checking contents',
     note='Thread schedules are sampled; a hang is a violation.')

exec(open(os.path.join(V, 'tools', 'props2.py')).read()) if os.path.exists(os.path.join(V, 'tools', 'props2.py')) else None

NA = []

if __name__ == '__main__':
    P.sort(key=lambda p: p[0]['id'])
    ids = [p[0]['id'] for p in P]
    assert len(set(ids)) == len(ids)
    with open(V + '/properties.jsonl', 'w') as f:
        for p, _, _ in P:
            f.write(json.dumps(p) + '\n')
    checks = []
    for p, t, n in P:
        i = p['id']
        assert os.path.exists(V + '/checks/%s.py' % i.lower()), i
        checks.append(dict(property=i, quick_cmd='./check %s --tier quick' % i, thorough_cmd='./check %s --tier thorough' % i,
                           technique=t, level='exploration', level_note=n, evidence_file='evidence/%s.json' % i))
    m = dict(version=1, setup_cmd='python3 lib/build.py core cli tools utils', checks=checks, not_applicable=NA,
             notes='Every check rebuilds /repo (working tree) with AddressSanitizer into .build/, keyed by the content of the '
                   'tree. See DESIGN.md.')
    with open(V + '/MANIFEST.json', 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    print(len(P), 'properties')
