def _nop(*a, **k):
    pass


set_loglevel = set_logfile = set_log_backup_count = set_log_maxsize = _nop
debug = info = warning = error = _nop
