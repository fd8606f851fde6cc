"""The rules that dafilter ships for text: (conditions, directory, name, append, stop)."""
RULES = [
    ([('awips1', 'svr|tor|ffw|svs|smw|mws')], 'warnings', '${ymdh}.$rc(AWIPS1)', True, False),
    ([('awips1', 'svr|tor|ffw|svs|smw|mws')], 'warnings', 'warnings_${ymd_h}.txt', True, False),
    ([('awips1', 'tcm')], 'hurricane/track', '$yyyy.$rc(awips)', True, False),
    ([('awips1', 'tcm|tcp|tcd|pws')], 'hurricane/forecast', '$rc(awips).txt', False, False),
    ([('awips1', 'chg')], 'hurricane/model', '$yyyy.$rc(awips)', True, False),
    ([('awips1', 'chg')], 'hurricane/model', '$rc(awips).txt', False, False),
    ([('wmoid', '^u[ab]')], 'pirep', '${ymdh}.airep', True, False),
    ([('wmoid', '^ud')], 'acars', '${ymdh}.amdar', True, False),
    ([('wmoid', '^u[efklms]'), ('nawips', '^tt(aa|bb|cc|dd)')], 'upperair', '${ymdh}.fm35', True, False),
    ([('wmoid', '^fb(us|ak|hw|oc)3(1|3|5|7|8|9)')], 'aloft', '$rc(wmotime).$rc(wmoid)', False, False),
    ([('wmoid', '^(iupt0[1-4]|iuak01)')], 'profiler', '${ymd}_prof.bufr', True, False),
    ([('fname', '^kbou_iupt4([1-3])')], 'profiler', '${ymd}_prof${s1}.bufr', True, False),
    ([('fname', '^kbou_isat')], 'profiler', '${ymd}_prof4.bufr', True, False),
    ([('wmoid', '^iupc0[12]')], 'profiler', '${ymd}_prof5.bufr', True, False),
    ([('fname', '^kwno_jus.(4[1-9])')], 'soundings/nam', '${ymdh}_nam${s1}.bufr', True, False),
    ([('fname', '^kwbc_jus.(4[1-9])')], 'soundings/gfs', '${ymdh}_gfs${s1}.bufr', True, False),
    ([('awips', '^pmdens')], 'enso', '${ymd_hm}.enso', True, False),
    ([('wmoid', '^s[ap]')], 'surface', '$ymdh.sao', True, False),
    ([('wmoid', '(^s[im]v[igns])|(^snv[ins])|(^s[imn](w[kz]|[^vw]))')], 'syn', '$ymdh.syn', True, False),
    ([('wmoid', '(^s(hv|hxx|s[^x]))|(^sx(vd|v.50|us(2[0-3]|08|40|82|86)))|(^y[ho]xx84)')], 'ship', '$ymdh.sb', True, False),
    ([('wmoid', '^s[imn]v[^gins]|^s[imn]w[^kz]')], 'ship6hr', '$ymdh.ship', True, False),
    ([('wmoid', '^sxvx[46]')], 'wavobs', '$ymdh.wvob', True, False),
    ([('wmoid', '^u[abcdefghijklmnpqrstwxy]')], 'upperair', '$ymdh.upa', True, False),
    ([('wmoid', '^uz')], 'drops', '$ymdh.drop', True, False),
    ([('wmoid', '^fo(us14|ak1[34]|ak2[5-9])')], 'mos', '$ymdh.nmos', True, False),
    ([('wmoid', 'fous2[1-6]|foak3[7-9]|fopa20')], 'mos', '$ymdh.gmos', True, False),
    ([('wmoid', 'feus2[1-6]|feak3[7-9]|fepa20')], 'mos', '$ymdh.xmos', True, False),
    ([('wmoid', 'fzxx41'), ('awips1', 'idm')], 'idft', '$ymdh.idft', True, False),
    ([('wmoid', 'fzak41'), ('awips1', 'idm')], 'idft', '$ymdh.idak', True, False),
    ([('fname', 'kwns_nwus2[02]')], 'storm/sels', '$ymdh.sels', True, False),
    ([('fname', '(kmkc_wwus40|kwns_wwus30)')], 'storm/watches', '$ym.watches', True, False),
    ([('awips1', 'tor|svr|ffw')], 'storm/warn', '$ymdh.warn', True, False),
    ([('wmoid', '^wwus(40|08)|wous20|wwus30')], 'storm/wtch', '$ymdh.wtch', True, False),
    ([('wmoid', 'wwus60'), ('station', 'kwns')], 'storm/wcp', '$ymdh.wcp', True, False),
    ([('wmoid', '^wwus(6[1-6]|32)'), ('awips1', 'sls')], 'storm/svrl', '$ymdh.svrl', True, False),
    ([('wmoid', '^wtpz4')], 'storm/tropic/epacific', '$ym.$rc(wmoid)', True, False),
    ([('wmoid', '^wtpn3')], 'storm/tropic/wpacific', '$ym.$rc(wmoid)', True, False),
    ([('wmoid', '^wtnt4')], 'storm/tropic/atlantic', '$ym.$rc(wmoid)', True, False),
    ([('wmoid', '^wtpa4')], 'storm/tropic/cpacific', '$ym.$rc(wmoid)', True, False),
    ([('wmoid', '^wt(nt|pz|pa)2[1-5]')], 'storm/hrcn', '$ymdh.hrcn', True, False),
    ([('wmoid', '^wwus4[1-6]')], 'storm/wstm', '$ymdh.wstm', True, False),
    ([('awips1', 'ffa')], 'storm/ffa', '$ymdh.ffa', True, False),
    ([('awips1', 'ffg|ffh')], 'storm/ffg', '$ymd.ffg', True, False),
    ([('awips1', 'scd')], 'scd', '$ymd.scd', True, False),
    ([('fname', 'kawn_(xrxx84|yixx84)|_u[abdr]')], 'acft', '$ymdh.acf', True, False),
    ([('fname', 'kkci_waus4[1-5]|_waus01')], 'airm', '$ymdh.airm', True, False),
    ([('station', 'kkci|phfo|pawu|pgum|panc'), ('wmoid', '^w[scv](pn|nt|pa|ak)')], 'isig', '$ymdh.isig', True, False),
    ([('station', 'kkci'), ('wmoid', 'wsus01|w[scv]us0[1-6]')], 'ncon', '$ymdh.sgmt', True, False),
    ([('station', 'kkci'), ('wmoid', 'wsus4[0-2]|wcpa3[1-5]|wsus3[1-3]')], 'csig', '$ymdh.conv', True, False),
    ([('wmoid', '^ft')], 'taf', '$ymdh.taf', True, False),
    ([('wmoid', '^fous5[1-5]')], 'rdf', '$ymdh.rdf', True, False),
    ([('awips1', 'wou')], 'storm/wou', '${ymd_hm}.wou', True, False),
    ([('awips1', 'wcn')], 'storm/wcn', '${ymd_hm}.wcn', True, False),
    ([('wmoid', '^feus8[0-9]')], 'nwx/extend', '$ymdh.f30', True, True),
    ([('awips', 'fwddy(.)')], 'nwx/fire/fwd', '$ymdh.fwddy$s1', True, True),
    ([('awips', 'swody([0-9])')], 'nwx/spc/day$s1', 'latest', False, False),
    ([('awips', 'swody([0-9])')], 'nwx/spc/day$s1', '$ymdh.day$s1', True, True),
    ([('awips', 'ptsdy([0-9])')], 'nwx/spc/day$s1', '$ymdh.ptsdy$s1', True, True),
    ([('wmoid', '^wwus20')], 'nwx/spc/watch', '$ymdh.watch', True, True),
    ([('wmoid', '^wwus30')], 'nwx/spc/watch', '$ymdh.wtch2', True, True),
    ([('awips1', '^wou')], 'nwx/spc/wou', '$ymdh.wou', True, True),
    ([('wmoid', '^wous40')], 'nwx/spc/public', '$ymdh.public', True, True),
    ([('station', 'kwns'), ('wmoid', 'nwus2[02]')], 'nwx/spc/svr_summ', '$ymdh.svr', True, False),
    ([('awips', 'stahry')], 'nwx/spc/stahry', '$ymdh.hry', True, True),
    ([('awips', 'stadts')], 'nwx/spc/stadts', '$ymdh.dts', True, True),
    ([('awips', 'stamts')], 'nwx/spc/stamts', '$ymdh.mts', True, True),
    ([('wmoid', '^acus11')], 'nwx/spc/meso', '$ymdh.meso', True, True),
    ([('wmoid', '^wwus44')], 'nwx/spc/hzrd', '$ymdh.hzrd', True, True),
    ([('wmoid', '^wous20')], 'nwx/spc/status', '$ymdh.stat', True, True),
    ([('awips', '^sev[0-9]')], 'nwx/spc/sev', '$ymdh.sev', True, True),
    ([('awips', 'sevspc')], 'nwx/spc/sevmkc', '$ymdh.sevmkc', True, True),
    ([('wmoid', '^abus2[3-6]|abxx0[567]|abca01|fpcn60|wbcn02|abcn01')], 'nwx/spc/tp_summ', '$ymdh.tp_summ', True, True),
    ([('wmoid', '^wwus0([1-3])')], 'nwx/spc/otlkpts', '$ymdh.ptsdy$s1', True, True),
    ([('wmoid', '^we')], 'nwx/seismic', '$ymdh.tsuww', True, True),
    ([('wmoid', '^se')], 'nwx/seismic', '$ymdh.info', True, True),
    ([('fname', 'knhc_(abnt20|abpz20)')], 'nwx/nhc/outlook', '$ymdh.outlk', True, False),
    ([('fname', 'phfo_acpn50')], 'nwx/nhc/outlook', '$ymdh.outlk', True, False),
    ([('fname', 'tjsj_abca33')], 'nwx/nhc/outlook', '$ymdh.outlk', True, False),
    ([('fname', 'pgtw_abpw10')], 'nwx/nhc/outlook', '$ymdh.outlk', True, False),
    ([('fname', 'knhc_(wtnt|wtpz)4[1-5]')], 'nwx/nhc/disc', '$ymdh.disc', True, False),
    ([('fname', 'phfo_wtpa4[1-5]')], 'nwx/nhc/disc', '$ymdh.disc', True, False),
    ([('fname', 'pgtw_w[dt]pn3[1-5]')], 'nwx/nhc/disc', '$ymdh.disc', True, False),
    ([('fname', 'knhc_(wtnt|wtpz)3[1-5]')], 'nwx/nhc/public', '$ymdh.pblc', True, False),
    ([('fname', 'phfo_wtpa3[1-5]')], 'nwx/nhc/public', '$ymdh.pblc', True, False),
    ([('fname', 'tjsj_wtca40')], 'nwx/nhc/public', '$ymdh.pblc', True, False),
    ([('fname', 'tfff_whca31')], 'nwx/nhc/public', '$ymdh.pblc', True, False),
    ([('fname', 'knhc_wt(nt|pz)2[1-5]')], 'nwx/nhc/marine', '$ymdh.mar', True, False),
    ([('fname', 'phfo_wtpa2[1-5]')], 'nwx/nhc/marine', '$ymdh.mar', True, False),
    ([('fname', 'nffn_w(h|t)ps01')], 'nwx/nhc/marine', '$ymdh.mar', True, False),
    ([('fname', 'kmia_whxx01')], 'nwx/nhc/model', '$ymdh.mdl', True, False),
    ([('fname', 'kwbc_whxx(0[1-4]|9[09])')], 'nwx/nhc/model', '$ymdh.mdl', True, False),
    ([('fname', '(knhc_urnt12|kwbc_u[rz]nt14)')], 'nwx/nhc/recon', '$ymdh.rcn', True, False),
    ([('fname', 'knhc_ax(nt|pz)20')], 'nwx/nhc/tdsc', '$ymdh.tdsc', True, False),
    ([('fname', 'knhc_wt(nt|pz)7[1-5]')], 'nwx/nhc/probs', '$ymdh.probs', True, False),
    ([('fname', 'phfo_acpn50')], 'nwx/tropical/trpwxou', '$ymdh.trpwxou', True, True),
    ([('fname', 'phfo_acpn60')], 'nwx/tropical/trpwxsu', '$ymdh.trpwxsu', True, True),
    ([('fname', 'phfo_acp[aw]40')], 'nwx/tropical/trpwxdi', '$ymdh.trpwxdi', True, True),
    ([('fname', 'phfo_wtpa2[1-5]')], 'nwx/tropical/maravnt', '$ymdh.maravnt', True, True),
    ([('fname', 'phfo_wtpa3[1-5]')], 'nwx/tropical/pubtrpc', '$ymdh.pubtrpc', True, True),
    ([('fname', 'phfo_wtpa4[1-5]')], 'nwx/tropical/trpcycd', '$ymdh.trpcycd', True, True),
    ([('fname', 'phfo_wtpa50')], 'nwx/tropical/trpcycp', '$ymdh.trpcycp', True, True),
    ([('fname', 'phfo_wtpa60')], 'nwx/tropical/trpcycu', '$ymdh.trpcycu', True, True),
    ([('fname', 'phfo_(acpa80|fzhw50)')], 'nwx/tropical/unnumdp', '$ymdh.unnumdp', True, True),
    ([('fname', 'knhc_nous42')], 'nwx/nhc/recon', '$ymdh.pod', True, True),
    ([('wmoid', 'urnt11')], 'nwx/nhc/recon', '$ymdh.areco', True, True),
    ([('wmoid', 'urnt12')], 'nwx/nhc/recon', '$ymdh.avortex', True, True),
    ([('wmoid', 'urnt14')], 'nwx/nhc/recon', '$ymdh.asupvort', True, True),
    ([('wmoid', 'urpn10')], 'nwx/nhc/recon', '$ymdh.pntreco', True, True),
    ([('wmoid', 'urpn11')], 'nwx/nhc/recon', '$ymdh.preco', True, True),
    ([('wmoid', 'urpn14')], 'nwx/nhc/recon', '$ymdh.psupvort', True, True),
    ([('wmoid', 'uznt13')], 'nwx/nhc/recon', '$ymdh.adrops', True, True),
    ([('wmoid', 'uzpn13')], 'nwx/nhc/recon', '$ymdh.pdrops', True, True),
    ([('wmoid', 'uzpa13')], 'nwx/nhc/recon', '$ymdh.wpdrops', True, True),
    ([('fname', 'kbix_urnt1[13]|pgtw_(urpa11|urpa1[0-2])')], 'nwx/nhc/recon', '$ymdh.tst', True, True),
    ([('wmoid', 'sxxx50')], 'nwx/nhc/recon', '$ymdh.tst', True, True),
    ([('wmoid', '^txus20')], 'nwx/flood/satest', '$ymdh.satest', True, True),
    ([('awips1', 'cgr')], 'nwx/marine/cguard', '$ymdh.cgr', True, True),
    ([('wmoid', 'faus0[1-5]|fahw0[1-5]|fahw31|faak0[1-5]')], 'nwx/old/aviation/area', '$ymdh.area', True, True),
    ([('fname', 'kkci_wsus3[1-3]|_wsus4[012]')], 'nwx/aviation/conv', '$ymdh.conv', True, True),
    ([('fname', 'phfo_wcpa3[1-5]')], 'nwx/aviation/conv', '$ymdh.conv', True, True),
    ([('station', '^k'), ('wmoid', '^ws')], 'nwx/aviation/intlsig', '$ymdh.intl', True, False),
    ([('station', 'kkci|phfo|pawu'), ('wmoid', '^w[scv](pn|nt|pa|ak)')], 'nwx/aviation/intlsig', '$ymdh.intl', True, False),
    ([('wmoid', '^ws[^u]|^wsuk|wsus01')], 'nwx/aviation/sigmet', '$ymdh.sgmt', True, True),
    ([('station', 'kkci'), ('wmoid', 'w[scv]us0[1-6]')], 'nwx/aviation/sigmet', '$ymdh.sgmt', True, False),
    ([('wmoid', 'waus01|wahw[03]1|waak01')], 'nwx/old/aviation/airmet', '$ymdh.airm', True, True),
    ([('station', 'kkci'), ('wmoid', 'waus4[1-5]')], 'nwx/old/aviation/airmet', '$ymdh.airm', True, False),
    ([('wmoid', 'fant02')], 'nwx/aviation/offshore', '$ymdh.offsh', True, True),
    ([('fname', 'kzan_faak2[1-6]')], 'nwx/aviation/cwa', '$ymdh.cwa', True, True),
    ([('fname', '(kz..)_(faus2[1-6]|wcus2[1-6])')], 'nwx/aviation/cwa', '$ymdh.cwa', True, True),
    ([('fname', '^(kz..|panc)_faus20')], 'nwx/aviation/mis', '$ymdh.mis', True, True),
    ([('wmoid', '^fous14|foak1[34]')], 'nwx/mos/ngm', '$ymdh.ngmmos', True, True),
    ([('wmoid', '^(fou[emw][6-9]|focn7|fogx)')], 'nwx/mos/ngm', '$ymdh.ngmgd', True, True),
    ([('fname', 'kwno_fous(8[6-9]|90)')], 'nwx/mos/ngm', '$ymdh.ngmgd', True, True),
    ([('fname', 'kwno_fous67')], 'nwx/mos/eta', '$ymdh.etagd', True, True),
    ([('fname', 'kwno_fqus2[1-6]')], 'nwx/mos/marine', '$ymdh.marnmos', True, True),
    ([('awips', 'pmdhmd')], 'nwx/hpc/prog', '$ymdh.disc', True, False),
    ([('wmoid', '^fxus02')], 'nwx/hpc/extend', '$ymdh.extend', True, False),
    ([('wmoid', 'fxus03')], 'nwx/hpc/hemi', '$ymdh.hemi', True, False),
    ([('wmoid', '^fx(us01|us10|ca20|sa20|hw01)')], 'nwx/hpc/prog', '$ymdh.prog', True, False),
    ([('wmoid', 'fxus04')], 'nwx/hpc/qpf', '$ymdh.qpf', True, False),
    ([('wmoid', 'fous30')], 'nwx/hpc/qpf', '$ymdh.qpferp', True, False),
    ([('wmoid', 'fous11')], 'nwx/hpc/hvysnow', '$ymdh.hvysnow', True, False),
    ([('wmoid', 'asus01')], 'nwx/hpc/fronts', 'latest', False, False),
    ([('wmoid', 'asus01')], 'nwx/hpc/fronts', '$ymdh.front', True, False),
    ([('wmoid', 'fsus02')], 'nwx/hpc/forecast', 'latest', False, False),
    ([('wmoid', 'fsus02')], 'nwx/hpc/forecast', '$ymdh.fcst', True, False),
    ([('wmoid', 'fxpa00')], 'nwx/hpc/expac', '$ymdh.expac', True, False),
    ([('awips', 'prb[ew]hi')], 'nwx/hpc/heat', '$ymdh.hmean', True, False),
    ([('awips', 'prb[ew]hh')], 'nwx/hpc/heat', '$ymdh.hmax', True, False),
    ([('awips', 'prb[ew]hl')], 'nwx/hpc/heat', '$ymdh.hmin', True, False),
    ([('fname', '(kwbc|kwno)_nous42')], 'nwx/hpc/sdm', '$ymdh.sdm', True, False),
    ([('fname', '(kwbc|kwno)_npxx10')], 'nwx/hpc/intl', '$ymdh.intl', True, False),
    ([('wmoid', 'acus4[1-5]')], 'nwx/hpc/storm', '$ymdh.storm', True, False),
    ([('fname', 'kwbc_feus40')], 'nwx/cpc/6_10_fcst', '$ymdh.f610', True, True),
    ([('fname', 'kwbc_fxus06')], 'nwx/cpc/6_10_nrtv', '$ymdh.n610', True, True),
    ([('fname', 'kwbc_fxus07')], 'nwx/cpc/30_nrtv', '$ymdh.n30', True, True),
    ([('fname', 'kwbc_fxus05')], 'nwx/cpc/90_nrtv', '$ymdh.n90', True, True),
    ([('fname', 'kwbc_fxhw40')], 'nwx/cpc/hawaii', '$ymdh.hawaii', True, True),
    ([('fname', 'kwnc_fxus21')], 'nwx/cpc/threats', '$ymdh.threats', True, True),
    ([('fname', 'kwnc_fxus25')], 'nwx/cpc/drought', '$ymdh.drought', True, True),
    ([('wmoid', '(fvxx2|fvcn0|fvau0)[0-4]')], 'nwx/volcano/volcano', '$ymdh.volc', True, False),
    ([('wmoid', '^wv')], 'nwx/volcano/volcwarn', '$ymdh.vlcw', True, False),
    ([('wmoid', 'fvus2[01]')], 'nwx/volcano/volcfcst', '$ymdh.vlcf', True, False),
    ([('awips1', '(ad(a|m|r|x)|ini)')], 'nwx/admin/$rc(awips1)', '$ymdh.$rc(awips1)', True, True),
    ([('awips1', 'agf|ago|fwl|saf|wcr|wda')], 'nwx/ag_prod/$rc(awips1)', '$ymdh.$rc(awips1)', True, True),
    ([('awips1', 'apg|aqi|asa')], 'nwx/air_qual/$rc(awips1)', '$ymdh.$rc(awips1)', True, True),
    ([('awips1', 'rr[67]')], 'nwx/asos/$rc(awips1)', '$ymdh.$rc(awips1)', True, True),
    ([('awips1', 'ava|avm|avw|sab|sag|swe|wsw')], 'nwx/avalanche/$rc(awips1)', '$ymdh.$rc(awips1)', True, True),
    ([('awips1', 'aww|oav|rfr|sad|sam|sig|wst|wsv')], 'nwx/aviation/$rc(awips1)', '$ymdh.$rc(awips1)', True, True),
    ([('awips1', 'fa[0-9]')], 'nwx/aviation/area', '$ymdh.area', True, True),
    ([('awips1', 'wa[0-9]')], 'nwx/aviation/airmet', '$ymdh.airm', True, True),
    ([('awips1', 'w[scv][0-9]')], 'nwx/aviation/sigmet', '$ymdh.sgmt', True, True),
    ([('awips1', 'awg|cae|cdw|cem|evi|hmw|lae|lew|nuw|rhw|sds|spw|sto|toe')], 'nwx/civil_advs/$rc(awips1)', '$ymdh.$rc(awips1)', True, True),
    ([('awips1', 'cf6|cli|clm|cmm')], 'nwx/climate/$rc(awips1)', '$ymdh.$rc(awips1)', True, True),
    ([('awips1', 'fdi|frw|fwa|fwe|fwf|fwm|fwn|fwo|fws|fww|pbf|rfd|rfw|smf')], 'nwx/fire/$rc(awips1)', '$ymdh.$rc(awips1)', True, True),
    ([('awips1', 'esf|ffa|ffg|ffh|ffs|fln|fls|ffw|flw')], 'nwx/flood/$rc(awips1)', '$ymdh.$rc(awips1)', True, False),
    ([('station', 'kwbc'), ('awips1', 'cod')], 'nwx/fronts/$rc(awips1)', '$ymdh.$rc(awips1)', True, False),
    ([('awips1', 'hcm|hmd|hyd|hym|hyw|rr[1-9am]')], 'nwx/hydro/$rc(awips1)', '$ymdh.$rc(awips1)', True, True),
    ([('awips1', 'cfw|cwf|glf|gls|hsf|ice|iob|lsh|maw|mim|mrp|mvf|mws|mww|nsh|ocd|off|omr|osw|pls|smw|srf|tid')], 'nwx/marine/$rc(awips1)', '$ymdh.$rc(awips1)', True, True),
    ([('awips1', 'esg|esp|ess|gsm|stq|twb')], 'nwx/misc/$rc(awips1)', '$ymdh.$rc(awips1)', True, True),
    ([('awips', 'pmd(ca|hi|sa|epd|ep[3-7]|spd|thr|hmd)|preepd')], 'nwx/misc/$rc(awips)', '$ymdh.$rc(awips)', True, True),
    ([('awips1', 'efp')], 'nwx/extend/$rc(awips1)', '$ymdh.$rc(awips1)', True, True),
    ([('wmoid', 'fxus02')], 'nwx/extend', '$ymdh.extend', True, True),
    ([('wmoid', 'fxus03')], 'nwx/hemi', '$ymdh.hemi', True, True),
    ([('awips1', 'stq|twb')], 'nwx/misc/$rc(awips1)', '$ymdh.$rc(awips1)', True, True),
    ([('awips1', 'fan|fmr|foh|frh|ftj|ftp|fwc|fzl|mav|met|mex|pfm|rdf|rdg')], 'nwx/model/$rc(awips1)', '$ymdh.$rc(awips1)', True, True),
    ([('awips1', 'eqr|eqw')], 'nwx/non_wx_events/$rc(awips1)', '$ymdh.$rc(awips1)', True, True),
    ([('awips1', 'lco|scd|taf')], 'nwx/obs_data/$rc(awips1)', '$ymdh.$rc(awips1)', True, True),
    ([('awips1', 'eol|eon|hwo')], 'nwx/outlook/$rc(awips1)', '$ymdh.$rc(awips1)', True, True),
    ([('awips1', 'map')], 'nwx/precip/$rc(awips1)', '$ymdh.$rc(awips1)', True, True),
    ([('awips1', 'afd|afm|afp|aws|awu|ccf|lfp|lsr|mis|now|opu|pns|rec|rer|rtp|rws|rzf|scc|scs|sfp|sft|sls|sps|stp|swr|tav|tpt|tvl|wcn|wvm|zfp')], 'nwx/pub_prod/$rc(awips1)', '$ymdh.$rc(awips1)', True, True),
    ([('awips', 'qpf(ptr|rsa|str)')], 'nwx/qpf/qpf', '$ymdh.qpf', True, True),
    ([('awips', 'qpferd|qpfhsd|qpfpfd')], 'nwx/qpf/$rc(awips)', '$ymdh.$rc(awips)', True, True),
    ([('awips1', 'qps')], 'nwx/qpf/$rc(awips1)', '$ymdh.$rc(awips1)', True, True),
    ([('awips1', 'ftm|mrm')], 'nwx/radar/$rc(awips1)', '$ymdh.$rc(awips1)', True, True),
    ([('awips1', 'rva|rvd|rvf|rvi|rvm|rvr|rvs')], 'nwx/river/$rc(awips1)', '$ymdh.$rc(awips1)', True, True),
    ([('awips1', 'scp|scv|sim')], 'nwx/satellite/$rc(awips1)', '$ymdh.$rc(awips1)', True, True),
    ([('awips1', 'mon')], 'nwx/space/$rc(awips1)', '$ymdh.$rc(awips1)', True, True),
    ([('awips1', 'mef|par|pvm|sta|ver')], 'nwx/stats/$rc(awips1)', '$ymdh.$rc(awips1)', True, True),
    ([('awips1', 'chg|dsa|hls|psh|tca|tcd|tce|tcm|tcp|tcs|tcu|tma|tsm|tsu|twd|two|tws')], 'nwx/tropical/$rc(awips1)', '$ymdh.$rc(awips1)', True, False),
    ([('awips1', 'uvi')], 'nwx/uvi/$rc(awips1)', '$ymdh.$rc(awips1)', True, True),
    ([('awips1', 'vaa|vow')], 'nwx/volcano/$rc(awips1)', '$ymdh.$rc(awips1)', True, True),
    ([('awips1', 'npw|svr|svs|tor')], 'nwx/watch_warn/$rc(awips1)', '$ymdh.$rc(awips1)', True, False),
    ([('awips1', 'wsw|ffw|flw')], 'nwx/watch_warn/$rc(awips1)', '$ymdh.$rc(awips1)', True, False),
]
