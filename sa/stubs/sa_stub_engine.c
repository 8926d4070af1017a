// Model of the engine's public operations for the analyses of its callers.
// Never linked or run: it is compiled to IR next to the sources, and the
// analysis substitutes these bodies at the call sites.  The __sa_ functions
// are events or unknown values.  The contracts written here are the ones that
// the engine checks (C01..C09) establish.
#include <stdint.h>
#include <stdbool.h>
#include <stddef.h>
#include "pogocache.h"

bool __sa_nd(void);
int __sa_shard(void);
const void *__sa_eval(const void *key);
size_t __sa_evallen(const void *key);
int64_t __sa_eexpires(const void *key);
uint32_t __sa_eflags(const void *key);
uint64_t __sa_ecas(const void *key);
void __sa_load(struct pogocache *cache, const void *key, size_t keylen, int64_t time, bool notouch);
void __sa_loadres(int status);
void __sa_update(const void *val, size_t vallen, int64_t expires, uint32_t flags);
void __sa_store(struct pogocache *cache, const void *key, size_t keylen, const void *val, size_t vallen,
    int64_t time, int64_t expires, int64_t ttl, uint64_t cas, uint32_t flags, bool keepttl, bool casop,
    bool nx, bool xx, bool lowmem, bool hasentry);
void __sa_storeres(int status);
void __sa_delete(struct pogocache *cache, const void *key, size_t keylen, int64_t time);
void __sa_deleteres(int status);
void __sa_begin(struct pogocache *cache);
struct pogocache *__sa_batch(void);
void __sa_end(struct pogocache *batch);
void __sa_iter(struct pogocache *cache, int64_t time, bool oneshard, int shard);
void __sa_iteract(int action);
const void *__sa_ikey(void);
size_t __sa_ikeylen(void);
const void *__sa_ival(void);
size_t __sa_ivallen(void);
int64_t __sa_iexpires(void);
uint32_t __sa_iflags(void);
uint64_t __sa_icas(void);
void __sa_sweep(struct pogocache *cache, int64_t time, bool oneshard, int shard);
size_t __sa_swept(void);
size_t __sa_kept(void);
void __sa_clear(struct pogocache *cache, int64_t time, bool oneshard, int shard, bool deferfree);
size_t __sa_count(struct pogocache *cache, int64_t time, bool oneshard, int shard);
size_t __sa_size(struct pogocache *cache, bool oneshard, int shard, bool entriesonly);
uint64_t __sa_total(struct pogocache *cache, bool oneshard, int shard);

enum {
    ST_INSERTED = POGOCACHE_INSERTED, ST_REPLACED = POGOCACHE_REPLACED,
    ST_FOUND = POGOCACHE_FOUND, ST_NOTFOUND = POGOCACHE_NOTFOUND,
    ST_DELETED = POGOCACHE_DELETED, ST_CANCELED = POGOCACHE_CANCELED,
    ST_NOMEM = POGOCACHE_NOMEM, ST_FINISHED = POGOCACHE_FINISHED,
};

int sa_stub_load(struct pogocache *cache, const void *key, size_t keylen,
    struct pogocache_load_opts *opts)
{
    __sa_load(cache, key, keylen, opts ? opts->time : 0, opts ? opts->notouch : false);
    if (__sa_nd()) {
        __sa_loadres(ST_NOTFOUND);
        return ST_NOTFOUND;
    }
    if (opts && opts->entry) {
        struct pogocache_update *update = 0;
        opts->entry(__sa_shard(), opts->time, key, keylen, __sa_eval(key), __sa_evallen(key),
            __sa_eexpires(key), __sa_eflags(key), __sa_ecas(key), &update, opts->udata);
        if (update) {
            __sa_update(update->value, update->valuelen, update->expires, update->flags);
            if (__sa_nd()) {
                __sa_loadres(ST_NOMEM);
                return ST_NOMEM;
            }
        }
    }
    __sa_loadres(ST_FOUND);
    return ST_FOUND;
}

int sa_stub_store(struct pogocache *cache, const void *key, size_t keylen,
    const void *val, size_t vallen, struct pogocache_store_opts *opts)
{
    __sa_store(cache, key, keylen, val, vallen, opts ? opts->time : 0, opts ? opts->expires : 0,
        opts ? opts->ttl : 0, opts ? opts->cas : 0, opts ? opts->flags : 0, opts ? opts->keepttl : 0,
        opts ? opts->casop : 0, opts ? opts->nx : 0, opts ? opts->xx : 0, opts ? opts->lowmem : 0,
        opts ? opts->entry != 0 : 0);
    if (__sa_nd()) {
        __sa_storeres(ST_NOMEM);
        return ST_NOMEM;
    }
    if (__sa_nd()) {
        // there is a live entry
        if (opts && opts->casop) {
            if (__sa_nd()) {
                __sa_storeres(ST_FOUND);
                return ST_FOUND;
            }
        } else if (opts && opts->nx) {
            __sa_storeres(ST_FOUND);
            return ST_FOUND;
        }
        if (opts && opts->entry) {
            if (!opts->entry(__sa_shard(), opts->time, key, keylen, __sa_eval(key), __sa_evallen(key),
                __sa_eexpires(key), __sa_eflags(key), __sa_ecas(key), opts->udata))
            {
                __sa_storeres(ST_CANCELED);
                return ST_CANCELED;
            }
        }
        __sa_storeres(ST_REPLACED);
        return ST_REPLACED;
    }
    if (opts && (opts->xx || opts->casop)) {
        __sa_storeres(ST_NOTFOUND);
        return ST_NOTFOUND;
    }
    __sa_storeres(ST_INSERTED);
    return ST_INSERTED;
}

int sa_stub_delete(struct pogocache *cache, const void *key, size_t keylen,
    struct pogocache_delete_opts *opts)
{
    __sa_delete(cache, key, keylen, opts ? opts->time : 0);
    if (__sa_nd()) {
        __sa_deleteres(ST_NOTFOUND);
        return ST_NOTFOUND;
    }
    if (opts && opts->entry) {
        if (!opts->entry(__sa_shard(), opts->time, key, keylen, __sa_eval(key), __sa_evallen(key),
            __sa_eexpires(key), __sa_eflags(key), __sa_ecas(key), opts->udata))
        {
            __sa_deleteres(ST_CANCELED);
            return ST_CANCELED;
        }
    }
    __sa_deleteres(ST_DELETED);
    return ST_DELETED;
}

int sa_stub_iter(struct pogocache *cache, struct pogocache_iter_opts *opts)
{
    __sa_iter(cache, opts ? opts->time : 0, opts ? opts->oneshard : 0, opts ? opts->oneshardidx : 0);
    if (opts && opts->entry) {
        while (__sa_nd()) {
            int action = opts->entry(__sa_shard(), opts->time, __sa_ikey(), __sa_ikeylen(), __sa_ival(),
                __sa_ivallen(), __sa_iexpires(), __sa_iflags(), __sa_icas(), opts->udata);
            __sa_iteract(action);
            if (action & POGOCACHE_ITER_STOP) {
                return ST_CANCELED;
            }
        }
    }
    return ST_FINISHED;
}

struct pogocache *sa_stub_begin(struct pogocache *cache)
{
    __sa_begin(cache);
    return __sa_batch();
}

void sa_stub_end(struct pogocache *batch)
{
    __sa_end(batch);
}

void sa_stub_sweep(struct pogocache *cache, size_t *swept, size_t *kept,
    struct pogocache_sweep_opts *opts)
{
    __sa_sweep(cache, opts ? opts->time : 0, opts ? opts->oneshard : 0, opts ? opts->oneshardidx : 0);
    if (swept) {
        *swept = __sa_swept();
    }
    if (kept) {
        *kept = __sa_kept();
    }
}

void sa_stub_clear(struct pogocache *cache, struct pogocache_clear_opts *opts)
{
    __sa_clear(cache, opts ? opts->time : 0, opts ? opts->oneshard : 0, opts ? opts->oneshardidx : 0,
        opts ? opts->deferfree : 0);
}

size_t sa_stub_count(struct pogocache *cache, struct pogocache_count_opts *opts)
{
    return __sa_count(cache, opts ? opts->time : 0, opts ? opts->oneshard : 0, opts ? opts->oneshardidx : 0);
}

size_t sa_stub_size(struct pogocache *cache, struct pogocache_size_opts *opts)
{
    return __sa_size(cache, opts ? opts->oneshard : 0, opts ? opts->oneshardidx : 0, opts ? opts->entriesonly : 0);
}

uint64_t sa_stub_total(struct pogocache *cache, struct pogocache_total_opts *opts)
{
    return __sa_total(cache, opts ? opts->oneshard : 0, opts ? opts->oneshardidx : 0);
}

// the status codes, for the analyses
const int sa_status_codes[8] = {
    ST_INSERTED, ST_REPLACED, ST_FOUND, ST_NOTFOUND, ST_DELETED, ST_CANCELED, ST_NOMEM, ST_FINISHED,
};
