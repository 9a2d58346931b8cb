"""Two or more tasks in threads of their own, of which exactly one runs at a time; a schedule decides which."""
import threading


class Ended(BaseException):
    """Unwinds a task that is no longer needed."""


class Weave:
    def __init__(self, pick):
        self.pick = pick            # pick(step, waiting tasks) -> which of them goes on
        self.main = threading.Semaphore(0)
        self.go = []
        self.done = []
        self.results = []
        self.failed = []
        self.over = False

    def body(self, i, task):
        self.go[i].acquire()
        try:
            if not self.over:
                self.results[i] = task(i)
        except BaseException as e:
            self.failed[i] = e
        self.done[i] = True
        self.main.release()

    def pause(self, i):
        """Called by task i where another one may go on."""
        self.main.release()
        self.go[i].acquire()
        if self.over:
            raise Ended()

    def run(self, tasks):
        threads = []
        for i in range(len(tasks)):
            self.go.append(threading.Semaphore(0))
            self.done.append(False)
            self.results.append(None)
            self.failed.append(None)
            threads.append(threading.Thread(target=self.body, args=(i, tasks[i]), daemon=True))
        for t in threads:
            t.start()
        problem = None
        step = 0
        try:
            while problem is None:
                waiting = [i for i in range(len(tasks)) if not self.done[i]]
                if not waiting:
                    break
                i = waiting[0]
                if len(waiting) > 1:
                    i = self.pick(step, waiting)
                    step += 1
                self.go[i].release()
                self.main.acquire()
                problem = self.failed[i]
        finally:
            self.over = True
            for i in range(len(tasks)):
                if not self.done[i]:
                    self.go[i].release()
                    self.main.acquire()
            for t in threads:
                t.join()
        if problem is not None:
            raise problem
        return self.results
