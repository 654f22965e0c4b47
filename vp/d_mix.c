/* Mixes of all facilities, started and finished again and again (C26). */
#define _GNU_SOURCE
#include "mods.h"

static uint64_t kinds;

static void
start_some (int n)
{
    while (n--) {
        int k = vp_range (NMODS);
        mods[k]();
        kinds |= 1ull << k;
        vp_mix (k);
    }
}

static void
late_task (Mod *m, int i)
{
    mod_pause ();
    start_some (1 + vp_range (3));
}

static void
one_system (void)
{
    int runs = 1 + vp_range (2);

    VP_CHECK (hev_task_system_init () == 0, "init", "failed");
    if (vp_chance (10))
        VP_CHECK (hev_task_system_init () < 0, "init", "a second one succeeded");
    if (vp_chance (5)) {
        /* nothing to run */
        hev_task_system_run ();
    }
    while (runs--) {
        start_some (vp_range (8));
        if (vp_chance (50))
            mod_task (mod_new ("ran: programs that start programs", sizeof (Mod)),
                      late_task, 0, -1);
        if (vp_chance (20)) {
            /* a task that is never run */
            HevTask *t = hev_task_new (-1);
            VP_CHECK (t, "new", "no task");
            hev_task_unref (t);
        }
        hev_task_system_run ();
        VP_CHECK (mods_live == 0, "run", "%d programs are left", mods_live);
    }
}

static void
check_released (const uint64_t *a)
{
    uint64_t b[16];

    VP_CHECK (vp_track_live () == 0, "leak", "%zu blocks (%zu bytes) are left",
              vp_track_live (), vp_track_bytes ());
    VP_CHECK (vp_maps_live () == 0, "leak-map", "%zu mapped bytes are left",
              vp_maps_bytes ());
    vp_fd_snapshot (b);
    VP_CHECK (!memcmp (a, b, sizeof (b)), "leak-fd", "descriptors %s",
              vp_fd_diff_str (a, b));
    vp_ev ("found everything released");
}

/* with virtual time and injected would-blocks and short transfers */
static void
w_mix (uint64_t n)
{
    int cycles = 1 + vp_range (vp_chance (5) ? 30 : 3), i;
    uint64_t a[16], inj = vp_inj_count;

    kinds = 0;
    mods_dns = 0;
    vp_fd_snapshot (a);
    vp_track_reset ();
    vp_track = 1;
    vp_shuffle = vp_chance (50);
    vp_eagain_pct = vp_chance (50) ? vp_range (40) : 0;
    vp_short_pct = vp_chance (50) ? vp_range (60) : 0;
    vp_quarantine = vp_chance (50);
    vp_close_monitor = 1;
    vp_tick_ns = vp_chance (50) ? vp_range (100000) : 0;
    for (i = 0; i < cycles; i++) {
        vp_vt_start (1000000000ull + vp_rnd () % 10000000000ull);
        one_system ();
        vp_vt_stop ();
        hev_task_system_fini ();
        check_released (a);
    }
    vp_quarantine_flush ();
    vp_track = 0;
    vp_close_monitor = 0;
    vp_eagain_pct = vp_short_pct = 0;
    if (__builtin_popcountll (kinds) > 1)
        vp_nontrivial ();
    vp_evn ("injected would-blocks and short transfers", vp_inj_count - inj);
    vp_sample ("%d systems with %d kinds of programs", cycles,
               __builtin_popcountll (kinds));
}

/* in real time, with lookups; the helper thread stays */
static void
w_real (uint64_t n)
{
    int cycles = 1 + vp_range (3), i, k;
    uint64_t a[16], b[16];

    kinds = 0;
    vp_gai_hook = mods_gai;
    mods_dns = 1;
    vp_track = 1;
    for (i = 0; i < cycles; i++) {
        VP_CHECK (hev_task_system_init () == 0, "init", "failed");
        if (i == 0) {
            /* what belongs to the helper thread is not the system's */
            m_dns ();
            hev_task_system_run ();
            hev_task_system_fini ();
            usleep (2000);
            vp_fd_snapshot (a);
            vp_track_reset ();
            continue;
        }
        start_some (1 + vp_range (5));
        hev_task_system_run ();
        VP_CHECK (mods_live == 0, "run", "%d programs are left", mods_live);
        hev_task_system_fini ();
        for (k = 0;; k++) {
            vp_fd_snapshot (b);
            if (!memcmp (a, b, sizeof (b)) && !vp_track_live () &&
                !vp_maps_live ())
                break;
            VP_CHECK (k < 2000, "leak", "%zu blocks, %zu mapped bytes, %s",
                      vp_track_live (), vp_maps_bytes (), vp_fd_diff_str (a, b));
            usleep (1000);
        }
        vp_ev ("found everything released");
    }
    vp_track = 0;
    if (__builtin_popcountll (kinds) > 1)
        vp_nontrivial ();
    vp_sample ("%d systems with %d kinds of programs", cycles,
               __builtin_popcountll (kinds));
}

static const VpWork works[] = {
    { "mix", w_mix },
    { "real", w_real },
    { NULL, NULL },
};

int
main (int argc, char **argv)
{
    return vp_main (argc, argv, works);
}
