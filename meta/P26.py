TITLE = "Work handed to threads is done once and on time, and threads end before the data"
STATEMENT = """Work put into a worker's queue is complete before it is offered, is taken out once and run once with its own data, is put into one queue only (the one the caller is told), is given up only when a stop was asked for, and a failure in it does not end the worker; workers are looked up only by numbers below their count.
The timer takes on every new job, hands out each job that is due and none that is not, and sets its next time one period from now; every job has its own function and a period in seconds, and copying work copies all of it.
A request to stop reaches every worker and listener, each thread looks at it, and all network, timer and worker threads are waited for before the data is put away."""
OVER = ["schedules", "histories"]
QUANT = "every path through the queue, the workers, the scheduler, the timer, the servers' stopping and waiting, and the main program; every place that hands out work"
WHY = """Work lost in a queue is data of a client never read; work run twice reads a connection already given back; a thread still adding points while the data is being put away loses them or crashes."""
FILES = ["include/queue.h", "src/core/task.cpp", "include/task.h", "src/utils/timer.cpp", "include/timer.h", "include/stop.h", "src/core/tcp.cpp", "src/core/udp.cpp", "include/udp.h", "src/main.cpp"]
STATE = [("queue positions", "Queue11::m_head, m_tail, m_items", "include/queue.h"), ("workers", "TaskScheduler::m_workers, m_threads, m_thread_count, m_next_worker", "include/task.h"),
         ("jobs", "Timer::m_tasks, m_new_tasks, m_has_new", "include/timer.h"), ("request to stop", "Stoppable::m_shutdown_request, m_stopped", "include/stop.h")]
MECH = [("queue", "Queue11::try_enqueue, try_dequeue"), ("worker", "TaskScheduler::Worker::work"), ("handing out", "TaskScheduler::submit_task, init, shutdown, wait"),
        ("timer", "Timer::run, add_task, stop"), ("end", "main, UdpServer::wait, TcpServer::wait, TcpListener::wait")]
OBSERVE = ["order of filling a place and moving the position, with memory order", "what lies between taking work and running it", "indices of workers and threads against their count", "when a job is handed out and what its next time is", "which threads are joined before the data is put away"]
TECH = "path enumeration of the queue and the scheduler with symbolic positions, must-pass path rules over the resolved program for the worker, timer and shutdown, bounds by dominating comparisons, field-by-field agreement of copies"
NOTE = """That only one thread at a time puts work into a queue is assumed, as the queue's own comment does. Work still in a queue when a stop is asked for is not run; the data it was for is still in the socket, and the statement says so."""
