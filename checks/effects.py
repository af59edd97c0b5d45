"""What each public call may give back, end or block on -- directly, whatever path it takes (call graph, calls through
pointers left out).  A release, an end of process or thread, or a blocking call that is not listed for a call is a violation."""
from fw import AnalysisError
NAMES = set('close shutdown unlink remove SSL_free SSL_CTX_free SSL_shutdown X509_free EVP_PKEY_free pthread_mutex_destroy pthread_cond_destroy exit _exit quick_exit kill raise fclose freeaddrinfo getaddrinfo gethostbyname pthread_exit pthread_cancel pthread_join fork system popen dup2 sleep usleep nanosleep clock_nanosleep poll select pthread_cond_wait pthread_cond_timedwait sem_wait sigwait rename truncate ftruncate munmap epoll_wait io_getevents'.split())
MAY = {
    'P01': {
        '': '__kfiber_mutex_lock kfiber_mutex_get_count kfiber_mutex_get_limit kfiber_mutex_get_worker kfiber_mutex_init kfiber_mutex_init2 kfiber_mutex_lock kfiber_mutex_lock2 kfiber_mutex_set_limit kfiber_mutex_try_lock kfiber_mutex_unlock',
        'pthread_mutex_destroy': 'kfiber_mutex_destroy',
    },
    'P02': {
        '': '__kfiber_rwlock_try_wakeup_writer kfiber_rwlock_init kfiber_rwlock_rlock kfiber_rwlock_runlock kfiber_rwlock_wlock kfiber_rwlock_wunlock',
        'pthread_mutex_destroy': 'kfiber_rwlock_destroy',
    },
    'P03': {
        '': 'kfiber_add_ev_waiter kfiber_cond_destroy kfiber_cond_init kfiber_cond_init_sync kfiber_cond_init_ts kfiber_cond_notice kfiber_cond_notice_ar kfiber_cond_notice_sync kfiber_cond_notice_ts kfiber_cond_notice_ts_ar kfiber_cond_try_wait kfiber_cond_try_wait_ar kfiber_cond_try_wait_sync kfiber_cond_try_wait_ts kfiber_cond_try_wait_ts_ar kfiber_cond_wait kfiber_cond_wait_ar kfiber_cond_wait_callback kfiber_cond_wait_callback_ar kfiber_cond_wait_callback_ts kfiber_cond_wait_callback_ts_ar kfiber_cond_wait_ts kfiber_cond_wait_ts_ar',
        'pthread_cond_destroy pthread_mutex_destroy': 'kfiber_cond_destroy_sync',
        'pthread_cond_wait': 'kfiber_cond_wait_sync',
        'pthread_mutex_destroy': 'kfiber_cond_destroy_ts',
    },
    'P04': {
        '': 'kcond_init kcond_notice kcond_reset kcond_try_wait kgl_pause krw_mutex_init krw_mutex_rlock krw_mutex_runlock krw_mutex_wlock krw_mutex_wunlock kwr_mutex_init kwr_mutex_rlock kwr_mutex_runlock kwr_mutex_wlock kwr_mutex_wunlock',
        'pthread_cond_destroy pthread_mutex_destroy': 'kcond_destroy',
        'pthread_cond_wait': 'kcond_wait',
    },
    'P06': {
        '': 'kthread_close_all_free kthread_flush kthread_get_count kthread_init kthread_pool_start kthread_start recv_notice_thread_ignore',
    },
    'P07': {
        '': 'kasync_worker_empty kasync_worker_init kasync_worker_refs kasync_worker_set kasync_worker_thread_start kasync_worker_will_wait thread_start_worker_thread',
        'pthread_cond_destroy pthread_cond_wait pthread_mutex_destroy': 'kasync_worker_start',
        'pthread_mutex_destroy': 'kasync_worker_release kasync_worker_try_start kasync_worker_worker_thread',
    },
    'P08': {
        '': 'kfiber_chan_add_ref kfiber_chan_close kfiber_chan_create kfiber_chan_get_ref kfiber_chan_recv kfiber_chan_release kfiber_chan_send kfiber_chan_wakeup',
    },
    'P09': {
        '': '__kfiber_wait _kfiber_wakeup_waiter kfiber_add_waiter kfiber_wait kfiber_wait_result kfiber_wakeup kfiber_wakeup2 kfiber_wakeup_all_waiter kfiber_wakeup_ts kfiber_wakeup_waiter',
    },
    'P10': {
        '': '__kfiber_switch kfiber_create kfiber_create2 kfiber_create_sync kfiber_exit_callback kfiber_get_count kfiber_init kfiber_is_main kfiber_is_main_fiber kfiber_join kfiber_join2 kfiber_main kfiber_new kfiber_powered_by kfiber_ref_self kfiber_result_callback kfiber_self kfiber_self2 kfiber_set_self kfiber_start kfiber_thread_init kfiber_try_join',
    },
    'P11': {
        '': 'is_selectable kselectable_is_read_ready kselectable_is_write_ready kselector_add_fiber_ready kselector_add_list kselector_remove_list selectable_bind selectable_bind_opaque selectable_clear_flags selectable_event_read selectable_get_opaque selectable_get_ssl selectable_is_locked selectable_is_ssl_handshake selectable_next selectable_next_read selectable_next_write selectable_read selectable_read_event selectable_readhup selectable_recvmsg selectable_remove selectable_remove_readhup selectable_sendfile selectable_support_sendfile selectable_write selectable_write_event',
        'SSL_free close shutdown': 'selectable_clean',
        'shutdown': 'selectable_shutdown',
    },
    'P12': {
        '': 'epoll_selector_aio_open epoll_selector_aio_read epoll_selector_aio_write kepoll_module_init kepoll_notice kepoll_notice_event kepoll_notice_init',
    },
    'P13': {
        '': 'kgl_get_tls_selector kselector_adjust_time kselector_can_close kselector_close_tick kselector_default_bind kselector_default_readhup kselector_default_remove kselector_default_remove_readhup kselector_get_fiber kselector_is_main_fiber kselector_is_same_thread kselector_new_tick kselector_next kselector_not_support_sendfile kselector_register_tick kselector_set_fiber kselector_start kselector_update_time',
        'shutdown': 'kselector_check_timeout',
    },
    'P14': {
        '': 'kselector_add_block_queue kselector_add_timer',
    },
    'P16': {
        '': 'kfiber_net_read kfiber_net_read_full kfiber_net_readv kfiber_net_write kfiber_net_write_full kfiber_net_writev kfiber_net_writev_full kfiber_sendfile kfiber_sendfile_full',
        'SSL_CTX_free SSL_free SSL_shutdown close pthread_mutex_destroy shutdown unlink': 'kfiber_net_close',
        'SSL_CTX_free SSL_free close pthread_mutex_destroy shutdown unlink': 'kfiber_net_accept',
        'SSL_shutdown shutdown': 'kfiber_net_shutdown',
        'close': 'kfiber_net_connect',
        'close unlink usleep': 'kfiber_net_listen',
    },
    'P17': {
        '': '_kasync_file_get_adjust_offset aio_alloc_buffer aio_free_buffer kasync_file_adjust_result kasync_file_bind_opaque kasync_file_direct kasync_file_get_handle kasync_file_get_opaque kasync_file_get_selector kfiber_file_bind kfiber_file_read kfiber_file_read_full kfiber_file_safe_read kfiber_file_safe_read_func kfiber_file_safe_write_full kfiber_file_safe_write_func kfiber_file_seek kfiber_file_size kfiber_file_tell kfiber_file_write kfiber_file_write_full',
        'close': 'init_aio_align_size kasync_file_close kfiber_file_close kfiber_file_open',
    },
    'P18': {
        '': '_kfiber_worker_thread kfiber_msleep kfiber_thread_call',
    },
    'P19': {
        '': 'add_server_socket is_server_multi_selectable is_server_supported_multi_selectable kgl_set_flag kserver_get_opaque kserver_get_perfect_selector kserver_get_ssl_ctx kserver_init kserver_refs kserver_selectable_get_ssl_ctx kserver_selectable_init kserver_set_opaque kserver_test_flag',
        'SSL_CTX_free': 'kserver_set_ssl_ctx',
        'SSL_CTX_free close pthread_mutex_destroy unlink': 'kserver_open_exsit kserver_release kserver_selectable_destroy',
        'SSL_CTX_free close pthread_mutex_destroy unlink usleep': 'kserver_open',
        'SSL_CTX_free close unlink': 'kserver_selectable_free',
        'SSL_CTX_free freeaddrinfo getaddrinfo': 'kserver_bind',
        'close unlink usleep': 'kserver_listen',
        'shutdown': 'kserver_close',
    },
    'P20': {
        '': 'kselector_event_accept kserver_selectable_accept',
        'SSL_CTX_free SSL_free close pthread_mutex_destroy shutdown unlink': 'accept_result_new_connection',
    },
    'P21': {
        '': 'kconnection_connect kconnection_delay kconnection_internal_new kconnection_new kconnection_new2 kconnection_new3 kconnection_no_delay kconnection_self_addr',
        'SSL_CTX_free SSL_free SSL_shutdown close pthread_mutex_destroy shutdown unlink': 'kconnection_destroy',
        'SSL_CTX_free SSL_free close pthread_mutex_destroy shutdown unlink': 'kconnection_real_destroy',
        'close': 'kconnection_half_connect',
    },
    'P22': {
        '': 'kconnection_is_ssl kconnection_is_ssl_handshake kconnection_is_ssl_not_handshake kconnection_ssl_handshake kfiber_ssl_handshake kgl_ssl_handshake kgl_ssl_handshake_status kselectable_ssl_handshake result_fiber_ssl_handshake',
        'SSL_free': 'kconnection_ssl_accept kconnection_ssl_connect',
        'SSL_shutdown': 'kfiber_ssl_shutdown kgl_ssl_shutdown kselectable_ssl_shutdown result_fiber_ssl_shutdown',
    },
    'P23': {
        '': 'kgl_add_ref_ssl_ctx kgl_get_ssl_ctx kgl_new_ssl_ctx kgl_ssl_ctx_new kgl_ssl_ctx_set_cipher_list kgl_ssl_ctx_set_early_data kgl_ssl_ctx_set_protocols kgl_ssl_get_next_proto_negotiated kgl_ssl_npn_advertise kgl_ssl_npn_selected kgl_ssl_npn_selected2 kgl_ssl_sni kgl_ssl_support_sendfile kssl_init kssl_init2 kssl_set_npn_callback kssl_set_sni_callback',
        'EVP_PKEY_free SSL_CTX_free X509_free': 'kgl_ssl_ctx_new_server2',
        'EVP_PKEY_free X509_free': 'kgl_ssl_certificate',
        'SSL_CTX_free': 'kgl_release_ssl_ctx kgl_ssl_ctx_new_client',
        'SSL_CTX_free fclose': 'kgl_ssl_ctx_new_server',
        'fclose': 'kgl_ssl_ctx_load_cert_key',
        'pthread_mutex_destroy': 'kssl_clean',
    },
    'P24': {
        '': 'kgl_addr_build kgl_addr_init kgl_addr_new kgl_addr_refs kgl_get_addr_cache_count',
        'freeaddrinfo': 'kgl_addr_release kgl_addr_timer kgl_flush_addr_cache',
        'freeaddrinfo getaddrinfo': 'async_addr_cache_worker async_addr_worker',
        'freeaddrinfo getaddrinfo pthread_mutex_destroy': 'kfiber_net_getaddr kgl_find_addr',
        'getaddrinfo': 'get_addr',
        'pthread_mutex_destroy': 'find_addr_in_tree kgl_find_cache_addr',
    },
    'P25': {
        '': 'ip_addr_s::get_hash ip_addr_s::operator& ip_addr_s::operator< ip_addr_s::operator== ksocket_accept ksocket_addr_compare ksocket_addr_hash ksocket_addr_len ksocket_addr_port ksocket_addrinfo_sockaddr ksocket_block ksocket_clean ksocket_delay ksocket_ipaddr ksocket_ipaddr_and ksocket_ipaddr_compare ksocket_ipaddr_ip ksocket_is_block ksocket_library_startup ksocket_new_udp ksocket_no_block ksocket_no_delay ksocket_set_time ksocket_sockaddr_ip ksocket_startup ksocket_unix_addr ksocket_unix_path',
        'close': 'ksocket_half_connect',
        'close poll': 'ksocket_connect',
        'close unlink': 'ksocket_listen',
        'freeaddrinfo getaddrinfo': 'ksocket_get_ipaddr ksocket_getaddr',
        'poll': 'wait_socket_event',
    },
    'P26': {
        '': 'kgl_array_create kgl_array_destroy kgl_array_init kgl_array_push kgl_array_push_n kgl_cleanup_add kgl_cleanup_get_data kgl_cleanup_insert kgl_cleanup_set_data kgl_create_pool kgl_destroy_pool kgl_palloc kgl_pfree kgl_pmemalign kgl_pnalloc kgl_realloc kgl_reset_pool kgl_sys_malloc xmemory_newz',
    },
    'P27': {
        '': 'debug_print_buff destroy_kbuf free_kbuf kbuf_seek kgl_iovec_seek krw_append krw_buffer_clean krw_buffer_destroy krw_buffer_init krw_buffer_new krw_get_read_buffer krw_get_read_buffers krw_get_write_buffer krw_insert krw_newbuff krw_read krw_read_success krw_write_int krw_write_int64 krw_write_str krw_write_success ks_buffer_clean ks_buffer_destroy ks_buffer_init ks_buffer_new ks_buffer_switch_read ks_get_read_buffer ks_get_read_buffers ks_get_write_buffer ks_get_write_buffers ks_guarantee ks_read_success ks_save_point ks_write_int ks_write_int64 ks_write_str ks_write_success new_kbuf new_pool_kbuf new_pool_kbuf_align',
    },
    'P28': {
        '': 'rb_augment_erase_begin rb_augment_erase_end rb_augment_insert rb_erase rb_first rb_insert_color rb_last rb_link_node rb_next rb_prev rb_replace_node rbtree_create rbtree_destroy rbtree_file_cmp rbtree_find rbtree_find2 rbtree_find_cover rbtree_init rbtree_insert rbtree_insert2 rbtree_int_cmp rbtree_is_empty rbtree_iterator rbtree_remove rbtree_remove2 rbtree_string_case_cmp rbtree_string_cmp',
    },
    'P29': {
        '': 'get_perfect_selector get_selector_by_index get_selector_count is_selector_manager_init kasync_init kselector_add_timer_ts kselector_exit kselector_init kselector_step_exit kselector_step_init selector_manager_add_timer selector_manager_adjust_time selector_manager_event_name selector_manager_grow selector_manager_init selector_manager_on_ready selector_manager_set_timeout selector_manager_thread_init selector_module_create',
        'shutdown': 'kasync_main kselector_step kselector_thread selector_manager_start',
        'sleep': 'selector_manager_close',
    },
    'P30': {
        '': 'kselector_destroy kselector_new',
    },
    'P31': {
        '': 'kudp_add_multicast kudp_bind kudp_get_recvaddr kudp_send kudp_send_to',
        'SSL_CTX_free SSL_free SSL_shutdown close pthread_mutex_destroy shutdown unlink': 'kudp_new kudp_new2',
    },
    'P32': {
        '': 'convert_refs_string kforward_list_append kforward_list_empty kforward_list_init kfoward_list_remove kgl_len_str_size kstring_from kstring_from2 kstring_get_ref kstring_refs kstring_release',
    },
    'P33': {
        '': 'kfile_close_on_exec kfile_last_modified kfopen kfread_all kfseek kfsize kftime kfutime',
    },
}
def reach(p, root):
    """external names reachable from root by direct calls -> the call path"""
    via = {root: None}; w = [root]; ext = {}
    while w:
        n = w.pop(); fs = p.byname.get(n, [])
        if not fs: ext[n] = n
        for g in fs:
            for c in p._callees(g):
                if c not in via: via[c] = n; w.append(c)
    def path(n):
        r = []
        while n is not None: r.append(n); n = via[n]
        return ' <- '.join(r)
    return {n: path(n) for n in ext}
def effects(ctx):
    if ctx.pid not in MAY: return
    ctx.cfg = 'epoll'; p = ctx.p; seen = 0
    for may, names in MAY[ctx.pid].items():
        ok = set(may.split())
        for fn in names.split():
            if not any(not f.internal or f.name == fn for f in p.byname.get(fn, [])): continue
            seen += 1; r = reach(p, fn); bad = sorted((set(r) & NAMES) - ok)
            ctx.entries.add(fn)
            ctx.ob('effects', fn, not bad, 'gives back, ends or blocks on nothing but its own (%s)%s' % (may or 'nothing', ''.join(': ' + r[b] for b in bad[:2])))
    if not seen: raise AnalysisError('none of the calls whose effects are known exists')
