#pragma once
extern "C" {
extern int mpi_sim_eager, mpi_sim_sched_choices, mpi_sim_probe_choices, mpi_sim_order_choices;
extern void** mpi_sim_private;
void mpi_sim_run(int nranks, void (*fn)(int));
long mpi_sim_live_comms(void);
long mpi_sim_live_requests(void);
long mpi_sim_unreceived(void);
}
