prop('C09', 'Every completed product reaches the processor once, in order and unaltered',
     'A product that a reader completed (all of its blocks counted in order under its own sequence number) is given to the '
     'processor exactly once, with all of its fields and blocks as the reader set them, in the order in which the products '
     'were completed, whatever other channels and reader threads do and also across a close and reopen of a file based '
     'queue. It is refused only when the configured hard limit on the number or on the memory of the waiting products is '
     'reached, and reaching a soft limit refuses nothing. The processor waiting on an empty queue returns after the time '
     'limit it asked for and not before, and is woken as soon as a product is queued.',
     ['histories', 'schedules', 'configurations'],
     'All histories of starts, blocks, ends, aborts and takings in up to nine channels, all limits and all kinds of queue '
     'files, and all schedules of the readers and the processor.',
     NOTEST + 'uses the product control queue.',
     ['src/pctl.c', 'src/pctldb.c', 'src/pctlmfdb.c', 'src/mfile.c'],
     [('active elements and queueing', 'src/pctl.c'), ('queue and limits', 'src/pctldb.c'), ('blocks', 'src/pctlmfdb.c')],
     ['elements and blocks taken from the queue', 'status of sending'],
     technique='stateful property-based testing against a queue model; generated concurrent readers and consumer with '
     'self-checking contents',
     note='Thread schedules are sampled; time limits are checked from below and hangs are violations.')

prop('C10', 'The announcement queues deliver every accepted record once, in order',
     'Every queue of a table gives out each record it accepted exactly once, unaltered and in the order sent, whatever is '
     'sent to the other queues, however many threads send and receive, however often it is filled and emptied, and across '
     'a close and reopen of a file based queue. A record is refused only when the hard limit is reached and is reported as '
     'over the soft limit exactly when it is, and the status flags follow these outcomes. A receiver waits on an empty '
     'queue for the time limit it gave, not less, and is woken by the next record.',
     ['histories', 'schedules', 'configurations'],
     'All histories of sends, receives and reopenings, all limits and record sizes, memory and file queues, all schedules.',
     NOTEST + 'uses these queues.',
     ['src/libqdb/qdb.c', 'src/nbspq.c'],
     [('queue of records', 'src/libqdb/qdb.c: nbspqt_snd, nbspqt_rcv')],
     ['records received', 'status of sending', 'status flags'],
     technique='stateful property-based testing against a queue model; generated concurrent senders and receivers',
     note='Thread schedules are sampled; time limits are checked from below and hangs are violations.')

prop('C11', 'Each connection queue delivers its records once, in order, within its limits',
     'The queue of a client connection gives its thread every record it accepted exactly once, unaltered and in order, '
     'independently of the queues of the other clients, however often it runs full and empty. It refuses records only while '
     'the hard limit is reached, and its soft and hard limit flags tell the outcome of the last send. Its receiver waits '
     'for its time limit, not less, and is woken by the next record.',
     ['histories', 'schedules', 'configurations'],
     'All histories of sends and receives on up to three queues, all limits and record sizes, and all schedules of senders '
     'and the receiver.',
     NOTEST + 'connects a client.',
     ['src/libconnth/cq.c', 'src/libqdb/qdb.c'],
     [('connection queue', 'src/libconnth/cq.c')],
     ['records received', 'status of sending', 'limit flags'],
     technique='stateful property-based testing against a queue model; generated concurrent senders and receiver',
     note='Thread schedules are sampled; time limits are checked from below and hangs are violations.')

prop('C12', 'A whole-file slave stores every file its master sent, exactly once and exactly',
     'A slave reading whole files (nbs1) stores every acceptable file whose blocks arrive in order, under its name and with '
     'exactly the concatenation of its blocks (each decompressed when the file was sent compressed and is not to be kept '
     'so), and announces it once with the transmitted numbers and name; a file already stored is not stored or announced '
     'again. A file with a missing, repeated or foreign block, a malformed name or undecodable data is never stored or '
     'announced, and one cut short by the start of the next is recorded as missing. However the stream is cut into pieces, '
     'a malformed or short packet only ends that connection, the slave connects again and goes on, and masters do not '
     'affect each other.',
     ['inputs', 'histories', 'fault_sequences', 'configurations'],
     'All sequences of packets, well formed or not, over any number of connections, with any timing and cuts, from up to '
     'three masters at a time; all accept patterns and compression policies.',
     NOTEST + 'runs a slave.',
     ['src/nbs1r.c', 'src/slavenbs/framep.c', 'src/slavenbs/reader.c', 'src/slave_net.c', 'src/nreadn.c'],
     [('packet reader', 'src/nbs1r.c: recv_nbs_packet'), ('assembly', 'src/slavenbs/framep.c: slavenbsproc'),
      ('reconnection', 'src/slave_net.c')],
     ['files in the spool', 'announcements on the filter and server queues', 'missing log'],
     technique='property-based testing of the real slave threads against scripted masters with generated streams and cuts, '
     'judged by a reference model',
     note='Pauses are short; the read timeout itself is not waited for. A file sent again before it is stored is not '
     'generated.')

prop('C13', 'An announcement slave relays every announcement of its masters exactly',
     'Every well-formed announcement that a slave (nbs2) receives is given once, in order and with the same numbers, name '
     'and path, to the filter queue and to the server queue when the pattern of that queue accepts its name, as a complete '
     'packet of its own that contains nothing else, whatever the sizes of the packets of its master. A packet of another '
     'kind, too large, short, with a wrong checksum or without terminated names is not relayed and only ends that '
     'connection, after which the slave connects again and goes on.',
     ['inputs', 'histories', 'fault_sequences', 'configurations'],
     'All packet streams, well formed or not, over any number of connections, with any cuts, from up to three masters.',
     NOTEST + 'runs a slave.',
     ['src/packfp.c', 'src/packfpu.c', 'src/slavefp/reader.c', 'src/slavefp/framep.c', 'src/slave_net.c'],
     [('packet reader', 'src/packfp.c: recv_fp_packet'), ('relay', 'src/slavefp/framep.c')],
     ['announcements on the filter and server queues'],
     technique='property-based testing of the real slave threads against scripted masters with generated streams and cuts, '
     'judged by a reference model',
     note='Pauses are short; the read timeout itself is not waited for.')

prop('C14', 'Files inserted through the input fifo are announced exactly',
     'Every message that nbspinsert writes has the documented format with the given values, it refuses numbers out of '
     'range without writing anything, with -i it stores exactly its input, and messages of concurrent writers are not '
     'mixed. Each well-formed message read from the input fifo is announced once, in order and with the same values, to '
     'the queues whose pattern accepts its name. A malformed message of any kind is not announced and the fifo is made '
     'anew, with the configured mode, and goes on being read.',
     ['inputs', 'histories', 'configurations', 'schedules'],
     'All sequences of messages, well formed or not, written in any pieces and through nbspinsert, also concurrently.',
     NOTEST + 'reads the fifo, and nbspinsert is run on a few messages.',
     ['src/slavein/reader.c', 'src/slavein/framep.c', 'src/slave_in.c', 'src/packfp.c', 'tools/nbspinsert/nbspinsert.c'],
     [('message reader', 'src/slavein/reader.c: recv_in_packet'), ('fifo', 'src/slave_in.c')],
     ['announcements on the filter and server queues', 'bytes written by nbspinsert', 'the fifo'],
     technique='property-based testing of the real fifo thread and the real nbspinsert with generated messages, judged by a '
     'reference model',
     note='What else is in the fifo when it is made anew is lost by design.')

prop('C15', 'The server sends each client every product, once, in order and intact',
     'A client of the built-in server that identified itself as NBS1 or NBS2 receives every product announced from the '
     'moment it is served, once and in order: as NBS1 the whole content of the file in numbered blocks with the right '
     'name, numbers and checksums, as NBS2 the announcement packet with all its fields. Other clients that come, stall, '
     'leave or send data change nothing of that, and a client that reconnects after it was disconnected in the middle of '
     'a product receives that product again from the start. No file of the spool or slot of the memory spool remains '
     'taken by clients that have left, and the server ends when it is asked to.',
     ['inputs', 'histories', 'schedules', 'configurations', 'fault_sequences'],
     'All sequences of products of any size, and of clients connecting, stalling, sending and leaving, with the file and '
     'the memory spool.',
     NOTEST + 'runs the server.',
     ['src/serverc.c', 'src/serverm.c', 'src/serverf.c', 'src/nbs1s.c', 'src/packfp.c', 'src/libconnth', 'src/libqdb',
      'src/err.c'],
     [('client thread', 'src/serverc.c'), ('server main thread', 'src/serverm.c'), ('nbs1 packets', 'src/nbs1s.c')],
     ['bytes received by each client', 'files open at the end'],
     technique='property-based testing of the real server threads with generated products and scripted TCP clients, judged '
     'by a reference model of the streams',
     note='Thread schedules are sampled; one second of the server is 4 ms.')

prop('C16', 'EMWIN clients get the files the filter chooses, once, in order, well formed',
     'For each product, the emwin filter is asked once with the line that describes the product, and according to what it '
     'answers the product itself, another file under the name it gives, or nothing is sent: every EMWIN client gets those '
     'files once and in order, each as its complete sequence of packets of 1116 bytes with the right name, part numbers, '
     'checksum, date and padding, complemented. A filter that fails, ends, answers short or does not answer in time is '
     'started again and costs nothing but the product it was asked about, and the same goes for asking for a reload. '
     'Without EMWIN clients the filter is asked only if emwinfilter_always is set.',
     ['inputs', 'histories', 'fault_sequences', 'configurations'],
     'All sequences of products of any size, of answers and failures of the filter, and of clients that come and leave.',
     NOTEST + 'runs the server.',
     ['src/emwin.c', 'src/serverm.c', 'src/serverc.c', 'src/pfilter.c', 'src/nreadn.c'],
     [('packets', 'src/emwin.c'), ('filter dialogue', 'src/serverm.c: exec_emwin_filter'), ('filter process', 'src/pfilter.c')],
     ['bytes received by each client', 'lines received by the filter'],
     technique='property-based testing of the real server with a scripted filter process and scripted TCP clients, judged by '
     'a reference model of filter and streams',
     note='Filter answers later than its timeout are sampled at a few delays; one second of the server is 4 ms.')

prop('C17', 'The server serves only known protocols it was told to serve, within its limits',
     'A client is served only if it identifies itself, in time, with the name of a protocol that servertype enables (any '
     'other text means EMWIN if that is enabled); all others receive nothing and are disconnected. No more than maxclients '
     'are connected at a time, and of the connections from one address the newest is the one served. With the netfilter, a '
     'product goes to exactly the clients that its script allows by name, or else by address, or else by default, also '
     'after the script was changed and reloaded.',
     ['inputs', 'histories', 'configurations', 'fault_sequences'],
     'All histories of connections, identifications and disconnections, all products, and all netfilter rules.',
     NOTEST + 'runs the server.',
     ['src/serverm.c', 'src/serverf.c', 'src/sfilter.c', 'src/libconnth'],
     [('identification', 'src/serverm.c: match_client_protocol'), ('netfilter', 'src/serverf.c'),
      ('connection table', 'src/libconnth')],
     ['bytes received by each client', 'connections closed'],
     technique='property-based testing of the real server with generated netfilter scripts and scripted TCP clients, judged '
     'by a reference model',
     note='One second of the server is 4 ms.')

prop('C18', 'Accept lists decide by their right-most match what is processed and sent',
     'In each accept list the right-most pattern that matches the name of a product decides: the product is accepted, or '
     'refused if the pattern is marked with "!"; without a match it is refused, an unset list accepts everything and an '
     'empty one nothing. acceptpatt decides what is stored, filterqacceptpatt and serverqacceptpatt what is announced to the '
     'filters and to the server, and nbs1acceptpatt, nbs2acceptpatt and emwinacceptpatt what is sent to the clients of each '
     'kind, each independently of the others. A list with an invalid pattern is refused at the start.',
     ['inputs', 'configurations'],
     'All lists of extended regular expressions and all product names.',
     NOTEST + 'uses accept lists.',
     ['src/ure.c', 'src/nbspre.c', 'src/nbsp.c', 'src/serverm.c'],
     [('pattern lists', 'src/ure.c'), ('their use', 'src/nbspre.c')],
     ['files in the spool', 'announcements on the queues', 'bytes received by clients'],
     technique='property-based testing: a grammar of regular expressions is generated in two dialects, the real receiver and '
     'server are compared with the reference evaluation',
     note='Regular expressions of bounded depth, over the characters of product names.')

prop('C19', 'Each master and each client gets the options of its own entry, else the defaults',
     'Every entry of masterservers gives one master with the type, host and port it names and the options it gives, in '
     'their documented order; the default applies to a port or option that is omitted, empty or (for an option) not a '
     'number, and a configuration with a malformed entry is refused as a whole. The line of clientoptions that carries the '
     'whole name or address of a client gives the options of that client in the same way, and no other line does.',
     ['inputs', 'configurations'],
     'All strings of entries and lines, well formed or not, with any separators, all hosts and defaults.',
     NOTEST + 'uses either setting.',
     ['src/slavet.c', 'src/slave.c', 'src/strsplit.c', 'src/stoi.c', 'src/serverm.c'],
     [('table of masters', 'src/slavet.c'), ('client options', 'src/serverm.c: lookup_client_options')],
     ['the table of masters', 'the options of the connected clients'],
     technique='property-based testing: generated settings against a reference parser, on the real initialization and on the '
     'real server with connected clients',
     note='Options of clients are positive numbers or no numbers.')

prop('C20', 'Every option is what the configuration file sets it to, the default otherwise',
     'After reading the default configuration file and the one given with -c, every option has the value that was assigned '
     'to it last, by any Tcl means, and the documented default if none was; -C prints exactly these values. A file with an '
     'error or a value that is not an integer where one is needed is refused, and so is, before anything is started, a '
     'value outside the range of its option or an empty string where one is required.',
     ['inputs', 'configurations'],
     'All configuration files that assign any of the options, in any order and as often as wanted.',
     NOTEST + 'reads a configuration file.',
     ['src/conf.c.in', 'src/libtclconf/tclconf.c', 'src/init.c', 'src/main.c'],
     [('option table and validation', 'src/conf.c.in'), ('linking with Tcl', 'src/libtclconf/tclconf.c')],
     ['the options', 'the output of nbspd -C', 'exit status'],
     technique='property-based testing: generated Tcl configuration files against a reference table of options',
     note='Negative values of unsigned options are not generated.')

prop('C21', 'Every filter is told of every product, in order, whatever the others do',
     'Each program in sysfilterlist, and each executable file or fifo with a reader in filterdevdir, is told of every product '
     'announced while it is installed, once and in order, programs with one line of text and fifos with one packet, with the '
     'right numbers, name and path; nothing else in the directory is executed or stands in the way. A filter that ends, is '
     'missing or does not read its fifo takes nothing from the others: it is told again after at most one lost product. A reload '
     'restarts the programs and installs and removes filters without losing or repeating a product, and the state report '
     'gives for each filter the products and failures since the last one.'.replace('. A reload', '; a reload'),
     ['histories', 'configurations', 'fault_sequences'],
     'All histories of products, deaths of programs, readers of fifos that come, go or stop reading, and reloads, for any set of '
     'filters in list and directory.',
     NOTEST + 'runs a filter.',
     ['src/filters.c', 'src/pfilter.c', 'src/nreadn.c', 'src/packfp.c'],
     [('filter list and its (re)loading', 'src/filters.c: e_get_filters, e_reload_filters'),
      ('delivery', 'src/filters.c: sendto_fifo_filter, sendto_pipe_filter')],
     ['lines read by programs', 'packets read from fifos', 'filter state file'],
     technique='model-based property testing with generated filter programs and fifos on the real filter server',
     note='Programs read their input; a program that does not would block the filter server.')

CLI = 'property-based testing of the real programs, built with AddressSanitizer: generated products, damages, options and ways of input '

prop('C22', 'The filing tools write exactly the products they are given',
     'nbspfile, nbsppipe, nbspcat and nbspz write every byte of a product once and in order, without the control block, with '
     'the GEMPAK header and trailer, without the WMO header, after n skipped bytes or compressed with a level as the '
     'options say, whatever the size of the product, and each command of an nbspcat session acts on its own options only, '
     'also after one that failed. nbspunz gives back exactly the frames that it is asked for and the bytes that are not '
     'compressed, so that it inverts nbspz and nbspfile -z. A product that is missing, cut off or damaged where the tool must '
     'read it is refused with a nonzero exit status, and no input crashes a tool.',
     ['inputs', 'histories', 'configurations'],
     'All files of any size, with and without control block, WMO header and compressed frames, all options, all sessions of nbspcat.',
     NOTEST + 'runs one of these programs.',
     ['filters/filterlib/c/nbspfile.c', 'filters/filterlib/c/nbsppipe.c', 'filters/filterlib/c/nbspcat.c', 'filters/filterlib/c/nbspz.c',
      'filters/filterlib/c/nbspunz.c', 'filters/filterlib/c/unz.c', 'filters/filterlib/c/io.c', 'filters/filterlib/c/mfile.c'],
     [('page copy and headers', 'filters/filterlib/c/nbspfile.c, nbspcat.c'), ('frames', 'filters/filterlib/c/nbspunz.c, nbspz.c, unz.c')],
     ['files written', 'standard output', 'exit status'],
     technique=CLI + 'against a reference transformation, and round trips',
     note='Products up to 140 kB.')

prop('C23', 'The identification tools report exactly what the product says',
     'nbspgrib, nbspgrib2, nbsprad2info and nbspradinfo print the fields that the headers of a product contain (center, model, '
     'time, level; station, position, height, mode, code), decoded as the format defines them and in the documented form, whatever '
     'comes before (control block, GEMPAK or WMO header, skipped bytes as the options say) and however the input arrives, from a '
     'file, from standard input or in pieces from a pipe. A product that is too short, lacks its mark or has an impossible '
     'section is refused with exit status 1 (2 for nbspradinfo -q when the product description block is invalid) and '
     'nothing is printed, and no input crashes a tool.',
     ['inputs', 'configurations', 'schedules'],
     'All values of all header fields, all options, truncations at every length, and all ways in which a pipe delivers the bytes.',
     NOTEST + 'runs one of these programs.',
     ['filters/filterlib/c/nbspgrib.c', 'filters/filterlib/c/nbspgrib2.c', 'filters/filterlib/c/nbsprad2info.c',
      'filters/filterlib/c/dcnids/nbspradinfo.c', 'filters/filterlib/c/dcnids/dcnids_header.c'],
     [('section parsing', 'filters/filterlib/c/nbspgrib.c, nbspgrib2.c'), ('product description block', 'filters/filterlib/c/dcnids')],
     ['standard output', 'exit status'],
     technique=CLI + 'against a reference encoder of the headers',
     note='nbspgrib2 -e on other editions and two-digit years outside the present century are not judged.')

prop('C24', 'The radar decoder draws every cell of a product where it lies',
     'nbspradgis turns each run of codes of a radial product (run-length and digital packets) whose level lies within the '
     'limits (the defaults of the product, or -M and -N) into cells of one kilometre by one kilometre of arc at their range and '
     'azimuth from the radar, and leaves out all others. The csv, shp, shx, dbf and info files contain the same cells with the same '
     'code and level, in the same order, with consistent counts, lengths and bounding boxes, and exactly the files that '
     'the options ask for are written under the names they give. A product that is cut off, inconsistent or of an unsupported kind is '
     'refused with exit status 1, and no input crashes the program.',
     ['inputs', 'configurations'],
     'All radials, runs and codes, ten product codes in both packet types and all modes, plain or compressed, all options, all damages.',
     NOTEST + 'decodes a radar product.',
     ['filters/filterlib/c/dcnids/nbspradgis.c', 'filters/filterlib/c/dcnids/dcnids_decode_radials_af1f.c',
      'filters/filterlib/c/dcnids/dcnids_decode_digital_radials_16.c', 'filters/filterlib/c/dcnids/dcnids_transform.c', 'filters/filterlib/c/dcnids/dcnids_shp.c'],
     [('packets', 'filters/filterlib/c/dcnids/dcnids_decode_*.c'), ('geometry', 'filters/filterlib/c/dcnids/dcnids_transform.c'),
      ('files', 'filters/filterlib/c/dcnids/dcnids_shp.c, dcnids_dbf.c, dcnids_csv.c, dcnids_info.c')],
     ['files written', 'standard output', 'exit status'],
     technique=CLI + 'against a reference decoder, the output files parsed by independent readers',
     note='Up to 360 radials; positions compared to 1e-7 degrees (csv: to its printed precision).')

prop('C25', 'The satellite tools describe, convert and place images exactly',
     'nbspsatinfo and nbspsat print the fields that the header of a satellite image contains, compressed or not; nbspsat writes '
     'a gray image with exactly the pixels of the product, or with -g the header and the product compressed (the 533 '
     'bytes of headers, then blocks of 5120 bytes), under the name the options say. nbspsatgis places every point at the longitude '
     'and latitude that the projection of the image (mercator, lambert, polar stereographic) gives it, with its level, '
     'alike in all the files that the options ask for, and each cell of an asc grid has the level of the nearest point of the '
     'image or no data outside. An image that is cut off, has a damaged header, an unsupported projection, less data than '
     'points or an empty rectangle is refused with exit status 1, and no input crashes a tool.',
     ['inputs', 'configurations', 'schedules'],
     'All header fields, sizes, pixels, projections and rectangles, all options, truncations, and input in pieces.',
     NOTEST + 'decodes an image in this format.',
     ['filters/filterlib/c/dcgini/nbspsat.c', 'filters/filterlib/c/dcgini/nbspsatgis.c', 'filters/filterlib/c/dcgini/nbspsatinfo.c',
      'filters/filterlib/c/dcgini/dcgini_pdb.c', 'filters/filterlib/c/dcgini/dcgini_transform.c'],
     [('header', 'filters/filterlib/c/dcgini/dcgini_pdb.c'), ('projections and grid', 'filters/filterlib/c/dcgini/dcgini_transform.c'),
      ('files', 'filters/filterlib/c/dcgini/dcgini_shp.c, dcgini_dbf.c, dcgini_csv.c, dcgini_asc.c, dcgini_info.c')],
     ['files written', 'standard output', 'exit status'],
     technique=CLI + 'against reference projections with round trips, and independent readers of png, zlib, shp and dbf',
     note='Lines as long as the grid is wide, away from the poles and the date line; up to 130 x 130 points.')

prop('C26', 'Each channel takes the frames of its own multicast group, in order',
     'nbspd in the noaaport feed mode receives on each of its channels every frame sent to the multicast group and port configured for '
     'that channel and no frame of any other group or port, hands each frame on unchanged and in the order of arrival on that '
     'channel, and drops a datagram that is shorter than a frame or whose size disagrees with the header without losing the '
     'next one. The products and announcements that result are those of the frames of each channel taken by itself. A list of groups or '
     'ports that is empty, too long or of unequal lengths, or an interface that does not exist, is refused at startup.',
     ['inputs', 'configurations', 'schedules', 'fault_sequences'],
     'All lists of groups and ports, interleavings of the channels, lost, repeated, exchanged, damaged and cut frames.',
     NOTEST + 'starts a reader.',
     ['src/reader.c', 'src/npcast.c', 'src/mcast.c', 'src/libmcast/src/mcast.c'],
     [('readers', 'src/reader.c, src/mcast.c'), ('configuration of the channels', 'src/npcast.c')],
     ['frames handed on per channel', 'products stored', 'announcements', 'result of the initialization'],
     technique='model-based property testing of the real reader threads on multicast sockets of the loopback interface',
     note='The sender stays a few frames ahead, so that the network loses nothing.')

prop('C27', 'What nbspmcast transmits is received as exactly the files it was given',
     'nbspmcast sends each file it is given, on the command line or by standard input, as one product of frames that the receive pipeline '
     'accepts: consecutive product numbers from -s on, frame numbers that go on from -f over the whole run, a control block and the '
     'content in blocks of 4000 bytes, to the address and port configured. The receiver stores exactly the bytes of each file, once and in order. '
     'A file that cannot be read is reported and takes nothing from the others.',
     ['inputs', 'configurations', 'fault_sequences'],
     'All numbers and sizes of files, empty and at the block size, unreadable files, options, and both ways of naming the files.',
     NOTEST + 'runs nbspmcast.',
     ['tools/nbspmcast/nbspmcast.c', 'tools/nbspmcast/sbnpack/configure.sh'],
     [('frames', 'tools/nbspmcast/sbnpack/configure.sh'), ('files and options', 'tools/nbspmcast/nbspmcast.c')],
     ['datagrams on the multicast group', 'products stored by the receiver', 'exit status'],
     technique='property-based testing of the real program, its datagrams compared with a reference packer and fed to the real receive pipeline',
     note='Files up to 160 kB in a case.')

prop('C28', 'The GOES-R tools describe and place every pixel of a satellite file',
     'nbspgoesr and nbspgoesrgis place each pixel of a netCDF file (sectorized, -g or -r) at the longitude and latitude at which the '
     'satellite sees its scan angles, leave the pixels that look into space out of the csv files, and give each its value '
     '(scaled, with an offset, when the file says so) and its level from 0 to 255 between the least and the greatest value; '
     'the png, csv, shp, shx, dbf and info files agree with each other, and exactly those that the options ask for are written. nbspgoesrinfo '
     'prints the parameters of the file in lower case, with the date as seconds, yyyymmdd and hhmm. A file that lacks a '
     'variable, dimension or parameter that is needed, or has one of another size, is refused with a nonzero exit status and nothing is written.',
     ['inputs', 'configurations'],
     'All sizes, scan angles, satellite positions, types and scalings of the variables, values, texts and dates, options, and missing parts.',
     NOTEST + 'checks these values; the existing tests run the tools on a dozen images of one sector.',
     ['filters/filterlib/c/dcgoesr/nbspgoesr.c', 'filters/filterlib/c/dcgoesr/nbspgoesrgis.c', 'filters/filterlib/c/dcgoesr/nbspgoesrinfo.c',
      'filters/filterlib/c/dcgoesr/dcgoesr_nc.c', 'filters/filterlib/c/dcgoesr/dcgoesr_xy2lonlat.c', 'filters/filterlib/c/dcgoesr/dcgoesr_shp.c'],
     [('reading and levels', 'filters/filterlib/c/dcgoesr/dcgoesr_nc.c'), ('geometry', 'filters/filterlib/c/dcgoesr/dcgoesr_xy2lonlat.c'),
      ('files', 'filters/filterlib/c/dcgoesr/dcgoesr_shp.c, dcgoesr_dbf.c, dcgoesr_csv.c, dcgoesr_info.c')],
     ['files written', 'standard output', 'exit status'],
     technique=CLI + 'against a reference projection in double precision, and independent readers of png, shp and dbf',
     note='Classic netCDF files up to 60 x 60 pixels, none of them exactly at the limb or beyond the date line.')

prop('C29', 'GOES-R grids hold at each place the pixel seen there; cuts are exact',
     'nbspgoesrgis -A writes a grid of square cells over the rectangle without background, or the one that -s and -t ask for, '
     'in which each cell has the level of the pixel in which the satellite sees that place, and no data outside of the image or '
     'where the Earth hides it. nbspgoesrasc writes for each box it is given, by -e or by lines of standard input, exactly the '
     'cells of the grid that the box touches, up to and including its edges, under the name that prefix, index and suffix make. A rectangle or '
     'box that is empty, reversed, incomplete or beyond the grid, or an index out of range, is refused with a nonzero exit status.',
     ['inputs', 'configurations'],
     'All images, rectangles, grids, boxes (inside, at the edges, outside), options and damaged boxes.',
     NOTEST + 'makes or cuts a grid.',
     ['filters/filterlib/c/dcgoesr/dcgoesr_regrid_asc.c', 'filters/filterlib/c/dcgoesr/dcgoesr_asc.c', 'filters/filterlib/c/dcgoesr/nbspgoesrasc.c',
      'filters/filterlib/c/dcgoesr/dcgoesr_xy2lonlat.c'],
     [('regridding', 'filters/filterlib/c/dcgoesr/dcgoesr_regrid_asc.c'), ('cutting', 'filters/filterlib/c/dcgoesr/nbspgoesrasc.c')],
     ['grid files', 'standard output', 'exit status'],
     technique=CLI + 'against the inverse projection in double precision and the windows of a generated grid',
     note='Within a tenth of a pixel (more for the finest scans) of the border between two pixels either counts.')

INST = ('the real Tcl programs of a scratch installation are run as an unprivileged user with the clock set to a generated time, ')

prop('C30', 'Scheduled commands run exactly when their schedule says',
     'Of the schedule that applies (the given file with -f, otherwise the last of the configuration directories that has it), nbspscheduler and '
     'scheduler run, in the order of the file and with their arguments unchanged, exactly the commands whose specification '
     'matches the present time: the hours, minutes, days of the month or days of the week it lists, or multiples of a number, in local '
     'time or, with g, in UTC. A command that fails does not keep the following ones from running, and a malformed specification is '
     'an error and never a match. Commands registered with the periodic package run once, at the first poll at or after each minute, hour, '
     'day or interval they are registered for.',
     ['inputs', 'configurations', 'histories', 'fault_sequences'],
     'All specifications, schedules, times, time zones, options, failing commands and sequences of polls.',
     NOTEST + 'runs a schedule.',
     ['filters/filterlib/tcl/hscheduler.tcl', 'filters/filterlib/tcl/mscheduler.tcl', 'filters/filterlib/tcl/periodic.tcl',
      'filters/scheduler/tcl/nbspscheduler.tcl', 'filters/scheduler/tcl/scheduler.tcl'],
     [('specifications', 'filters/filterlib/tcl/hscheduler.tcl, mscheduler.tcl: match_timespec'), ('periodic commands', 'filters/filterlib/tcl/periodic.tcl'),
      ('programs', 'filters/scheduler/tcl/nbspscheduler.tcl, scheduler.tcl')],
     ['commands run and their arguments', 'results of match_timespec', 'times of the periodic commands'],
     technique='property-based testing: ' + INST + 'against a reference of the specifications',
     note='A second of a poll is the finest step of time.')

prop('C31', 'A cleanup deletes the files its rules select and nothing else',
     'nbspcleanup deletes what the due rules of its configuration select: by age and name (a find expression), by number (-c: all but the '
     'last N in the order of the names, files or, with -d, directories, but for those that match -e) or by inventory '
     '(-i: the files an inventory of the selected age lists, and the inventory), in a directory or in each of its subdirectories '
     'that the exclusion does not match; for the same directory the later rule replaces the earlier. nbspinvrm deletes exactly the regular files that its '
     'inventories list in the directory of their first line, and then the inventory; with -t nothing. Everything else stays unchanged.',
     ['inputs', 'configurations'],
     'All trees, ages and names of files, rules, schedules, inventories and options.',
     NOTEST + 'runs a cleanup.',
     ['scripts/nbspcleanup.tcl', 'utils/nbspinvrm/nbspinvrm.c'],
     [('rules', 'scripts/nbspcleanup.tcl'), ('inventories', 'utils/nbspinvrm/nbspinvrm.c')],
     ['files and directories left', 'their content', 'the report'],
     technique='property-based testing: ' + INST + 'on generated trees, and the files left are compared with a model',
     note='Ages are kept some minutes clear of the limits of the rules.')

prop('C32', 'Each METAR report reaches the files of its station intact, newest first',
     'nbspmtrcsv prints for each report of a collective, in their order, one record with its station, times, type and text: the lines joined '
     'by a blank, without the final =. metarfilter writes each report, for each collective whose '
     'expression matches its station, to the latest-report file, at the head of the lists of the station (not again if it is already the first; '
     'no more than the configured number) and of the collective (one of each station), and at the end of the daily and hourly files of the header\'s time. '
     'Other products, and reports of stations in no collective, are not written anywhere.',
     ['inputs', 'configurations', 'histories'],
     'All collectives, reports of one or several lines, ways to end them, header times, repetitions, collective expressions, limits and switches.',
     NOTEST + 'runs the metar filter.',
     ['filters/metarfilter/tcl/metarfilter.tcl.in', 'filters/metarfilter/tcl/nbspmtrcsv.tcl', 'filters/filterlib/tcl/util.tcl'],
     [('splitting a collective', 'filters/metarfilter/tcl/nbspmtrcsv.tcl'), ('files of a station', 'filters/metarfilter/tcl/metarfilter.tcl.in'),
      ('time of the header', 'filters/filterlib/tcl/util.tcl: guess_clock_seconds')],
     ['records printed', 'files below the metar and archive directories', 'calls of the post filter'],
     technique='model-based property testing: ' + INST + 'with sequences of spooled products, against a model of the files',
     note='Header times within ten days of the present time.')

prop('C33', 'A decoded METAR report gives the values that the observation states',
     'nbspmtrd prints, for each report it is given by file, standard input or -e (raw, -d or -c), the station, time, type, wind, gust, temperature, dew '
     'point, pressure, sea level pressure, visibility, weather, sky, weather log and remarks that the report states, converted to the '
     'printed units (mph or, with -k, knots; degrees F; inHg or mb), as text, html (-h, -m) or comma separated values (-t), and nothing '
     'for what is not in the report. No report stops the decoding of the following ones.',
     ['inputs', 'configurations'],
     'All combinations of the groups of a report and their values, with remarks, options and forms of output.',
     'The one existing test decodes one report; the values of others, and the program nbspmtrd, are not tested.',
     ['tclmetar/tclmetar/src/lib/decode.tcl', 'tclmetar/tclmetar/src/lib/init.tcl', 'tclmetar/tclmetar/src/dc/dc.tcl'],
     [('decoding', 'tclmetar/tclmetar/src/lib/decode.tcl, init.tcl'), ('output', 'tclmetar/tclmetar/src/dc/dc.tcl')],
     ['standard output or the file of -o'],
     technique='property-based testing: reports are made from generated values, and the output of the real program must state the same values',
     note='One group of weather, before the remarks.')

prop('C34', 'A dispatcher gives every filter exactly its products in order, also if one dies',
     'masterfilter writes every product line to each of its enabled (or listed) filters; the managers of dafilter, rstfilter, gribfilter (grib '
     'products only) and gpfilter write it to the worker of the first type whose expression matches the name; clusterfilter to '
     'each enabled filter of each node whose expression matches, through ssh with the configured options and path: unchanged, once and in order. A filter '
     'that dies is started again and loses no product; one that cannot be started loses only its own, until it can; masterfilter and clusterfilter end '
     'with one request to quit. In an expression list the last match decides and "!" rejects.',
     ['histories', 'configurations', 'fault_sequences'],
     'All sequences of products, lists of filters, expressions, deaths (exit, error, signal) and programs that are missing or come back.',
     NOTEST + 'runs a dispatcher.',
     ['filters/masterfilter/tcl/masterfilter.tcl.in', 'filters/dafilter/tcl/dafilter-manager.tcl.in', 'filters/rstfilter/tcl/rstfilter-manager.tcl.in',
      'filters/gribfilter/tcl/gribfilter-manager.tcl.in', 'filters/gpfilter/tcl/gpfilter-manager.tcl.in', 'filters/clusterfilter/tcl/clusterfilter.tcl.in',
      'filters/clusterfilter/tcl/clusterfilter.init', 'filters/filterlib/tcl/filters.lib'],
     [('masterfilter', 'filters/masterfilter/tcl/masterfilter.tcl.in: masterfilter_slave_write'), ('managers', 'filters/dafilter/tcl/dafilter-manager.tcl.in and the like'),
      ('clusterfilter', 'filters/clusterfilter/tcl/clusterfilter.tcl.in, clusterfilter.init'), ('expressions', 'filters/filterlib/tcl/filters.lib: filterlib_uwildmat')],
     ['lines each filter reads', 'arguments each filter is started with', 'end of the dispatcher'],
     technique='model-based property testing: ' + INST + 'with recording programs in the place of the filters and of ssh, which die at generated products',
     note='A filter that dies has ended before the next product is written: a pipe may hold what a dying reader has not read.')

prop('C35', 'Rules see each product as announced, with the time nearest to its arrival',
     'When dafilter runs the rules for a product, rc(...) holds the fields of its line, the parts of its name in lower and upper case, the start of the '
     'body (but for images, radar images, grib and bufr), txtflag 1 exactly if that is text, the radar header\'s or the grib\'s own fields with the model, grid and '
     'forecast time that filters-gribid.def gives, and as its time that of the radar data or else, of the times with the day, hour and minute of '
     'its name, the one nearest to the present; nothing is left over from the product before. '
     'The rule files are used for each product in the order pre, site (or else defaults), rc.d, post.',
     ['inputs', 'histories', 'configurations'],
     'All sequences of products of every kind, whole, damaged or missing, at all times of the month, tables, saved control blocks and switches.',
     NOTEST + 'runs the filter library.',
     ['filters/filterlib/tcl/filters.lib', 'filters/filterlib/tcl/filters-gribid.lib', 'filters/dafilter/tcl/dafilter.tcl.in', 'filters/dafilter/tcl/dafilter.init.in'],
     [('fields of a product', 'filters/filterlib/tcl/filters.lib'), ('grib model, grid and forecast time', 'filters/filterlib/tcl/filters-gribid.lib'),
      ('order of the rule files', 'filters/dafilter/tcl/dafilter.tcl.in')],
     ['the variables that rules print', 'order in which the rule files are used'],
     technique='model-based property testing: ' + INST + 'with generated spool files and rules that print all variables, against a model',
     note='Two times at the same distance are both accepted.')

prop('C36', 'dafilter stores each product under the directory and name its rules give',
     'For each product the rules of each set run in order to the first break, and those whose condition holds store it where they say: appended, or replacing the file; radar '
     'and satellite files whole or without headers, with their inventory line, the link latest to the last and the list of the directory; nothing where a switch or expression '
     'of the configuration excludes the directory; '
     'in archive mode also, or only, as one more member of the tar file of its day with a line in the archive inventory. The shipped rules send each kind of product to its GEMPAK '
     '(decoders) directory and name, and with unprocessed_enable what no rule took is saved under its station.',
     ['inputs', 'histories', 'configurations'],
     'All sequences of products of the kinds the shipped rules tell apart and others, user rules in the four places, switches, expressions, archive modes.',
     NOTEST + 'runs a filter or its rules.',
     ['filters/dafilter/tcl/dafilter.tcl.in', 'filters/dafilter/tcl/dalib-file.tcl', 'filters/dafilter/tcl/dalib-rad.tcl', 'filters/dafilter/tcl/dalib-sat.tcl',
      'filters/dafilter/tcl/dalib-archive.tcl', 'filters/dafilter/tcl/dalib-enable.tcl', 'filters/dafilter/tcl/dalib-dirlist.tcl', 'filters/dafilter/tcl/dalib-inventory.tcl',
      'filters/dafilter/tcl/file.m4', 'filters/dafilter/tcl/rad.m4', 'filters/dafilter/tcl/sat.m4', 'filters/dafilter/tcl/grib.m4'],
     [('rules', 'filters/dafilter/tcl/dafilter.tcl.in'), ('storing', 'filters/dafilter/tcl/dalib-*.tcl'), ('the shipped rules', 'filters/dafilter/tcl/*.m4')],
     ['files, links, inventories and archives under the data directories'],
     technique='model-based property testing: ' + INST + 'with products made from the conditions of the rules, and the tree of files is compared with a model',
     note='The table of the shipped rules is written down in the check.')

prop('C37', 'The inventory lists every product and its reports state what was counted',
     'The inventory filter writes one line with the fields, time and size of each product to the file of the minute in which it arrived, and at the change '
     'of the minute (or at its end) the numbers of files and bytes of each channel, which start again from zero, to the file of the hour; files of '
     'earlier days are replaced. nbspstatcounters reports the last line of each of the three statistics under its own keywords, empty where there is none, in all '
     'formats, nbspstatmonitor the ages, sums and state, nbspstats the totals, averages and last values of all lines, and nbspstatplotdata the sums of each '
     'hour or minute of a day from an hour on.',
     ['histories', 'configurations'],
     'All sequences of products and gaps in time, all contents of the statistics files, days, hours, zones, formats and options.',
     NOTEST + 'runs the inventory filter or its reports.',
     ['filters/inventory/tcl/inventory.tcl.in', 'filters/inventory/tcl/nbspstatcounters.tcl', 'filters/inventory/tcl/nbspstatmonitor.tcl', 'filters/inventory/tcl/nbspstats.tcl',
      'filters/inventory/tcl/nbspstatplotdata.tcl', 'filters/inventory/tcl/inventory.init'],
     [('inventory', 'filters/inventory/tcl/inventory.tcl.in'), ('reports', 'filters/inventory/tcl/nbspstat*.tcl')],
     ['files of the inventory', 'standard output or result files of the reports'],
     technique='model-based property testing: ' + INST + 'at generated times, and the files and reports are compared with a model',
     note='One inventory filter, not started again within the hour (it starts the files of the minute and hour anew).')

prop('C38', 'Every missing product is asked for exactly once, and inserted if it is found',
     'Each line of the file of the missing products is handed on exactly once over all runs of nbsprecover. For each of them the recover filter asks the other '
     'server, with the configured options and at most the configured number of times, writes the product whole to its place in the spool, the line with R or U '
     'to the log of the day, and if it was found and inserting is enabled, announces it once with its own numbers, name and path; a failure of one affects no other.',
     ['histories', 'configurations', 'fault_sequences'],
     'All sequences of missing products and runs, failures of the other server and of the insertion, and configurations.',
     NOTEST + 'runs the recovery.',
     ['filters/recover/tcl/nbsprecover.tcl', 'filters/recover/tcl/recover.tcl.in', 'filters/recover/tcl/recover.init'],
     [('list', 'filters/recover/tcl/nbsprecover.tcl'), ('recovery', 'filters/recover/tcl/recover.tcl.in: process')],
     ['requests', 'spool files', 'logs', 'insertions'],
     technique='model-based property testing: ' + INST + 'with recording programs in the place of curl and nbspinsert, which fail at generated requests',
     note='The file of the missing products only grows.')

prop('C39', 'nbspbatch gets and hands on the products of each minute exactly once',
     'nbspbatch update (and the batch script) asks for the inventory of each minute from the last run to the present one, once, and again only if a run failed; of the '
     'products whose name the expression accepts, those it got (after at most the configured number of retries) are written whole to the spool directory of their station and listed '
     'in the file of their minute. nbspbatch filter hands the listed products of one or all minutes to the given program, with the fields of '
     'the inventory, name and full path, and removes the lists, unless told to keep them; a failure leaves an error file.',
     ['histories', 'configurations', 'fault_sequences'],
     'All sequences of runs, inventories, failures of the other server and of the program, expressions and options.',
     NOTEST + 'runs nbspbatch.',
     ['filters/inventory/tcl/nbspbatch.tcl', 'filters/inventory/tcl/batch.tcl.in'],
     [('update and get', 'filters/inventory/tcl/nbspbatch.tcl: proc_update, proc_get'), ('filter', 'filters/inventory/tcl/nbspbatch.tcl: proc_filter')],
     ['requests', 'lists of the minutes, spool files, error files', 'input of the program'],
     technique='model-based property testing: ' + INST + 'with recording programs in the place of curl and the filter, which fail at generated requests',
     note='Runs less than a day apart; lists of several minutes are handed on in any order.')

prop('C40', 'The filters for archives, notices and the own rules do just what the rules say',
     'spoolfilter copies each product its expression accepts, without the control block if told to, to the directory of its day and station; for each product '
     'the rules of arcfilter, panfilter, nbspfilter and netfilter run set by set to the first break: the product becomes one more member of the tar files '
     'given, each with its line in the archive inventory; one notice goes to each host given; netfilter leaves exactly what the rules allowed for this '
     'product, beginning from the default; the files for start and end run once. craftinsert inserts each operational level 2 file once, under its station and time, and keeps, '
     'moves or deletes the input as configured; a product or rule that fails affects no other product.',
     ['inputs', 'histories', 'configurations', 'fault_sequences'],
     'All sequences of products, rules in all the places, switches, expressions, missing files and failing rules.',
     NOTEST + 'runs these filters.',
     ['filters/spoolfilter/tcl/spoolfilter.tcl.in', 'filters/arcfilter/tcl/arcfilter.tcl.in', 'filters/arcfilter/tcl/arclib.tcl', 'filters/panfilter/tcl/panfilter.tcl.in',
      'filters/nbspfilter/tcl/nbspfilter.tcl.in', 'filters/netfilter/tcl/netfilter.tcl.in', 'filters/craftfilter/tcl/craftinsert.tcl'],
     [('copies', 'filters/spoolfilter/tcl/spoolfilter.tcl.in'), ('archives', 'filters/arcfilter/tcl/arcfilter.tcl.in, arclib.tcl'), ('notices', 'filters/panfilter/tcl/panfilter.tcl.in'),
      ('own rules', 'filters/nbspfilter/tcl/nbspfilter.tcl.in'), ('netfilter rules', 'filters/netfilter/tcl/netfilter.tcl.in'), ('level 2', 'filters/craftfilter/tcl/craftinsert.tcl')],
     ['copies, archives and inventories', 'notices', 'what rules wrote or allowed', 'insertions'],
     technique='model-based property testing: ' + INST + 'with generated products and rules, recording programs in the place of nbspudpsend and nbspinsert, and a model of the rules',
     note='No product is given twice; one file in each directory of rules.')

prop('C41', 'nbspd relays all it gets from start to stop, reloads on hang-up, ends cleanly',
     'While nbspd runs, each product of the input fifo and of the multicast feed goes to every filter program and client connected to it once and in order, whatever hang-ups (after which the '
     'filter programs added or removed take effect), broken pipes, alarms, reports of the queues and second instances there are, and likewise after a restart; -f, -r and -s leave out just '
     'the filters, the feeds and the server; a second nbspd with the same pid file refuses and disturbs nothing. On a terminate, interrupt or quit signal it ends with status 0, the filters and the web '
     'program end, and the pid file and the fifos are gone; the start script ran once at the start and the stop script once at the end. The periodic reports fall due at whole '
     'periods after the start and the scheduler runs once in each new minute.',
     ['histories', 'schedules', 'configurations'],
     'All histories of products, reloads, signals, clients, second instances and restarts, with all the options, and all sequences of times.',
     NOTEST + 'starts nbspd.',
     ['src/main.c', 'src/init.c', 'src/signal.c', 'src/per.c', 'src/pid.c', 'src/qstate.c', 'src/filters.c', 'src/httpd.c', 'src/exec.c'],
     [('life of the process', 'src/main.c: main; src/init.c: cleanup; src/signal.c'), ('reload', 'src/per.c: periodic; src/filters.c; src/serverm.c: server_loop'),
      ('pid file', 'src/pid.c: create_pidfile, remove_pidfile'), ('state of the queues', 'src/qstate.c'), ('periodic work', 'src/per.c: periodic, init_periodic')],
     ['what filters, clients and the web program are told', 'pid file, fifos, scripts, spool, status at the end', 'reports and runs of the scheduler at generated times'],
     technique='model-based property testing: generated lives of the real nbspd process, as an unprivileged user, fed through the fifo and multicast on the loopback; and the '
               'periodic work called at generated times; against a model',
     note='sleep() and time() are sped up for nbspd; its products are few enough for no queue or socket to overflow.')

prop('C42', 'The state reports of the server and the filters tell what they have and sent',
     'At each of its periods the server appends to the state file, and puts in the active file, the number of entries and of clients, and for each client that is connected its host, protocol, '
     'queue length and time of connection; the thread of each client reports the packets, bytes and errors since the connection and since its last report, which add up to what the client '
     'got; and the filter server reports for each filter program it has how many products it was given since the last report.',
     ['histories', 'schedules'],
     'All histories of products, clients that come and leave, reloads and restarts, with the reports at any moment.',
     NOTEST + 'starts nbspd.',
     ['src/serverm.c', 'src/serverc.c', 'src/filters.c', 'src/libconnth/ce.c', 'src/libconnth/cs.c'],
     [('server and clients', 'src/serverm.c: report_client_connections, print_client_connections'), ('client threads', 'src/serverc.c: periodic; src/libconnth/ce.c: conn_element_report_cstats; src/libconnth/cs.c'),
      ('filters', 'src/filters.c: report_filters_stats, reset_filters_stats')],
     ['state, active and thread files of the server', 'state file of the filters', 'what clients and filters got'],
     technique='model-based property testing: generated lives of the real nbspd process (as for C41), whose reports are compared with what its clients and filters received',
     note='Bytes are reported with one digit and are compared so.')

prop('C43', 'A decoded sounding gives the levels and values that its report states',
     'nbspfm35d gives, for each report of a file, the station and time of its header, the number and time of the observation, and either the report itself '
     'in one line or, for parts A and C, the surface, mandatory levels, tropopause and maximum wind it has, each with the pressure or height, temperature, dew point, wind speed '
     'and direction the groups state, and the given mark for what is missing; nbspuatocsv gives a line for each of these levels, and uafilter adds the '
     'reports and lines to the files of their day, hour and station. A report that is cut short is not decoded and affects no other report.',
     ['inputs', 'configurations'],
     'All reports with any levels and values in range, missing values, layouts of the lines and ends, and all output options.',
     NOTEST + 'decodes one part A report with six lower levels.',
     ['tclupperair/tclupperair/src/lib/fm35.tcl', 'tclupperair/tclupperair/src/dc/fm35dc.tcl', 'tclupperair/tclupperair/src/dc/uatocsv.tcl', 'filters/uafilter/tcl/uafilter.tcl.in'],
     [('levels and values', 'tclupperair/tclupperair/src/lib/fm35.tcl: decode, get_levels, get_data'), ('reports of a file', 'tclupperair/tclupperair/src/dc/fm35dc.tcl: process_raw_file'),
      ('files', 'filters/uafilter/tcl/uafilter.tcl.in: save_data')],
     ['output of nbspfm35d and nbspuatocsv', 'files and post filter of uafilter'],
     technique='property-based testing: generated values are encoded as reports of the FM-35 code and must be decoded to the same values; the programs and the filter run from a scratch installation',
     note='Every level has its three groups; wind speeds as reported, in whatever unit.')
