/*
 * The configuration of nbspd: reads generated configuration files with the
 * real functions and dumps what every option was set to.
 */
#include <pthread.h>
#include <unistd.h>
#include <fcntl.h>
#include <db.h>
#include <tcl.h>
#include "globals.h"
#include "init.h"
#include "conf.h"
#include "drvrt.h"

int nbspd_main(int argc, char **argv);

static struct { const char *name; int kind; void *p; } T[] = {
  {"user", 's', &g.user},
  {"group", 's', &g.group},
  {"home", 's', &g.home},
  {"umask", 'm', &g.umask},
  {"multicastip", 's', &g.multicastip},
  {"multicastport", 's', &g.multicastport},
  {"ifname", 's', &g.ifname},
  {"ifip", 's', &g.ifip},
  {"udprcvsize", 'i', &g.udprcvsize},
  {"startscript", 's', &g.startscript},
  {"stopscript", 's', &g.stopscript},
  {"scheduler", 's', &g.scheduler},
  {"spooltype", 'i', &g.spooltype},
  {"spooldir", 's', &g.spooldir},
  {"spooldb_slots", 'u', &g.spooldb_slots},
  {"spooldb_fname", 's', &g.spooldb_fname},
  {"cspoolbdb_dir", 's', &g.cspoolbdb_dir},
  {"cspoolbdb_name", 's', &g.cspoolbdb_name},
  {"cspoolbdb_mode", 'm', &g.cspoolbdb_mode},
  {"cspoolbdb_dbcache_mb", 'u', &g.cspoolbdb_dbcache_mb},
  {"cspoolbdb_ndb", 'u', &g.cspoolbdb_ndb},
  {"cspoolbdb_nslots", 'i', &g.cspoolbdb_nslots},
  {"cspoolbdb_maxsize_per128", 'u', &g.cspoolbdb_maxsize_per128},
  {"mspoolbdb_dbcache_mb", 'u', &g.mspoolbdb_dbcache_mb},
  {"mspoolbdb_ndb", 'u', &g.mspoolbdb_ndb},
  {"mspoolbdb_nslots", 'i', &g.mspoolbdb_nslots},
  {"mspoolbdb_maxsize_per128", 'u', &g.mspoolbdb_maxsize_per128},
  {"mspoolbdb_dbstats_logfile", 's', &g.mspoolbdb_dbstats_logfile},
  {"mspoolbdb_dbstats_logperiod_secs", 't', &g.mspoolbdb_dbstats_logperiod_secs},
  {"mspoolbdb_panicfile", 's', &g.mspoolbdb_panicfile},
  {"mspoolbdb_panicfile_mode", 'm', &g.mspoolbdb_panicfile_mode},
  {"devdir", 's', &g.filterdevdir},
  {"filterserver_enable", 'i', &g.filterserver_enable},
  {"filterlist", 's', &g.sysfilterlist},
  {"emwinfilter", 's', &g.emwinfilter},
  {"emwinfilter_fifo", 's', &g.emwinfilter_fifo},
  {"emwinfilter_read_timeout_secs", 'i', &g.emwinfilter_read_timeout_secs},
  {"emwinfilter_always", 'i', &g.emwinfilter_always},
  {"netfilter_enable", 'i', &g.netfilter_enable},
  {"netfilter", 's', &g.netfilter},
  {"httpd_enable", 'i', &g.httpd_enable},
  {"httpd", 's', &g.httpd},
  {"pidfile", 's', &g.pidfile},
  {"pidfilemode", 'm', &g.pidfile_mode},
  {"qstatefifo", 's', &g.qstatefifo},
  {"qstatefifomode", 'm', &g.qstatefifo_mode},
  {"statusfile", 's', &g.statusfile},
  {"missinglogfile", 's', &g.missinglogfile},
  {"rtxlogfile", 's', &g.rtxlogfile},
  {"qstatelogfile", 's', &g.qstatelogfile},
  {"qdbstatslogfile", 's', &g.qdbstatslogfile},
  {"serverstatefile", 's', &g.serverstatefile},
  {"serveractivefile", 's', &g.serveractivefile},
  {"serverthreadsfile", 's', &g.serverthreadsfile},
  {"filterserver_statefile", 's', &g.filterserver_statefile},
  {"slavestatsfile", 's', &g.slavestatsfile},
  {"productmode", 'm', &g.product_mode},
  {"subdirmode", 'm', &g.subdir_product_mode},
  {"spoolsavefmt", 'i', &g.spoolsavefmt},
  {"nbspstats_logperiod_secs", 't', &g.nbspstats_logperiod_secs},
  {"qstate_logperiod_secs", 't', &g.qstate_logperiod_secs},
  {"serverstate_logperiod_secs", 't', &g.serverstate_logperiod_secs},
  {"serverthreads_logperiod_packets", 'i', &g.serverthreads_logperiod_packets},
  {"serverthreads_logperiod_secs", 't', &g.serverthreads_logperiod_secs},
  {"servertype", 'i', &g.servertype},
  {"servername", 's', &g.servername},
  {"serverport", 's', &g.serverport},
  {"server_maxclients", 'i', &g.server_maxclients},
  {"server_so_sndbuf", 'i', &g.server_so_sndbuf},
  {"server_clientid_timeout_secs", 'i', &g.server_clientid_timeout_secs},
  {"server_clientqlimit_logperiod_secs", 'i', &g.server_clientqlimit_logperiod_secs},
  {"broadcast_read_timeout_secs", 'i', &g.broadcast_read_timeout_secs},
  {"fifo_write_timeout_ms", 'i', &g.fifo_write_timeout_ms},
  {"client_write_timeout_ms", 'i', &g.client_write_timeout_ms},
  {"client_write_timeout_retry", 'i', &g.client_write_timeout_retry},
  {"client_reconnect_wait_sleep_secs", 'i', &g.client_reconnect_wait_sleep_secs},
  {"client_reconnect_wait_sleep_retry", 'i', &g.client_reconnect_wait_sleep_retry},
  {"clientoptions", 's', &g.clientoptions},
  {"memfileblocksize", 'i', &g.memfile_blocksize},
  {"memfileminsize", 'i', &g.memfile_minsize},
  {"dbhome", 's', &g.dbhome},
  {"dbcachemb", 'i', &g.dbcache_mb},
  {"dbextent", 'i', &g.dbextent_size},
  {"dbfilemode", 'm', &g.dbfile_mode},
  {"qdbfname", 's', &g.qdb_dbfname},
  {"pctldbfname", 's', &g.pctl_dbfname},
  {"pctlmfdbfname", 's', &g.pctlmf_dbfname},
  {"queuemaxsoft", 'i', &g.queue_maxsize_soft},
  {"queuemaxhard", 'i', &g.queue_maxsize_hard},
  {"queue_read_timeout_ms", 'i', &g.queue_read_timeout_ms},
  {"queue_quota_logperiod_secs", 'i', &g.queue_quota_logperiod_secs},
  {"pctlmaxsoft", 'i', &g.pctl_maxsize_soft},
  {"pctlmaxhard", 'i', &g.pctl_maxsize_hard},
  {"pctlmaxmemsoft", 'i', &g.pctl_maxmem_soft},
  {"pctlmaxmemhard", 'i', &g.pctl_maxmem_hard},
  {"pctl_read_timeout_ms", 'i', &g.pctl_read_timeout_ms},
  {"clientqueuedbcachemb", 'i', &g.client_queue_dbcache_mb},
  {"clientqueuemaxsoft", 'i', &g.client_queue_maxsize_soft},
  {"clientqueuemaxhard", 'i', &g.client_queue_maxsize_hard},
  {"client_queue_read_timeout_ms", 'i', &g.client_queue_read_timeout_ms},
  {"rtxdb_dbfname", 's', &g.rtxdb_dbfname},
  {"rtxdb_slots", 'u', &g.rtxdb_slots},
  {"rtxdb_truncate_minutes", 'u', &g.rtxdb_truncate_minutes},
  {"rtxdb_default_process", 'i', &g.rtxdb_default_process},
  {"loadave_max_hard", 'i', &g.loadave_max_hard},
  {"loadave_max_soft", 'i', &g.loadave_max_soft},
  {"loadave_max_sleep_secs", 'i', &g.loadave_max_sleep_secs},
  {"loadave_checkperiod_secs", 'i', &g.loadave_checkperiod_secs},
  {"loadave_max_rtx_index", 'i', &g.loadave_max_rtx_index},
  {"feedmode", 'i', &g.feedmode},
  {"masterservers", 's', &g.masterservers},
  {"slave_masterport", 's', &g.slave_masterport},
  {"slave_read_timeout_secs", 'i', &g.slave_read_timeout_secs},
  {"slave_read_timeout_retry", 'i', &g.slave_read_timeout_retry},
  {"slave_reopen_timeout_secs", 'i', &g.slave_reopen_timeout_secs},
  {"slave_so_rcvbuf", 'i', &g.slave_so_rcvbuf},
  {"slave_stats_logperiod_secs", 'i', &g.slave_stats_logperiod_secs},
  {"slave_reject_duplicates", 'i', &g.slave_reject_duplicates},
  {"infeedfifo", 's', &g.infifo},
  {"infeedfifomode", 'm', &g.infifo_mode},
  {"infeedfifogrp", 's', &g.infifo_grp},
  {"acceptpatt", 's', &g.patt_accept},
  {"filterqacceptpatt", 's', &g.filterq_patt_accept},
  {"serverqacceptpatt", 's', &g.serverq_patt_accept},
  {"nbs1acceptpatt", 's', &g.nbs1_patt_accept},
  {"nbs2acceptpatt", 's', &g.nbs2_patt_accept},
  {"emwinacceptpatt", 's', &g.emwin_patt_accept},
  {"savezacceptpatt", 's', &g.savez_patt_accept},
  {"rtxdbacceptpatt", 's', &g.rtxdb_patt_accept},
  {NULL, 0, NULL}
};

void drv_child_init(void){ }

/* everything that is printed goes to this file */
static void redirect(char *hex){
  char *f = unhexstr(hex);
  int fd = open(f, O_WRONLY|O_CREAT|O_TRUNC, 0600);
  fflush(stdout);
  if(fd == -1 || dup2(fd, 1) == -1) die("open %s", f);
  close(fd);
}

/* load hexout hexdefault|- hexfile|-: as main() does */
static void op_load(int argc, char **argv){
  int i, st;
  redirect(argv[1]);
  init_globals();
  Tcl_FindExecutable("nbspd");
  if(strcmp(argv[2], "-")) g.defconfigfile = unhexstr(argv[2]);
  st = configure();
  if(st == 0 && strcmp(argv[3], "-")){
    g.configfile = unhexstr(argv[3]);
    st = configure();
  }
  out("conf %d", st);
  if(st) return;
  for(i = 0; T[i].name; ++i){
    if(T[i].kind == 's'){
      char *s = *(char**)T[i].p, *h = s ? hexof(s, strlen(s)) : NULL;
      out("opt %s %s", T[i].name, h ? h : "-");
      free(h);
    } else out("opt %s %lld", T[i].name, T[i].kind == 't' ? (long long)*(time_t*)T[i].p : T[i].kind == 'i' ?
	       (long long)*(int*)T[i].p : (long long)*(unsigned*)T[i].p);
  }
  out("valid %d", validate_configuration());
  fflush(stdout);
}

/* main hexout args: nbspd itself */
static void op_main(int argc, char **argv){
  char *a[16] = {"nbspd"};
  int i, st;
  for(i = 2; i < argc; ++i) a[i - 1] = unhexstr(argv[i]);
  redirect(argv[1]);
  st = nbspd_main(argc - 1, a);
  fflush(stdout);
  out("main %d", st);
}

struct drv_op drv_ops[] = {{"load", op_load}, {"main", op_main}, {NULL, NULL}};
