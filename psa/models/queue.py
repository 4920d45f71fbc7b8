"""Model of queue.Queue: a first-in, first-out list behind a mutex."""
import threading


class Queue:
    def __init__(self, maxsize=0):
        self.maxsize = maxsize
        self.queue = []
        self.mutex = threading.Lock()

    def qsize(self):
        return len(self.queue)

    def empty(self):
        return len(self.queue) == 0

    def put(self, item, block=True, timeout=None):
        self.queue.append(item)

    def put_nowait(self, item):
        self.queue.append(item)

    def get(self, block=True, timeout=None):
        return self.queue.pop(0)

    def get_nowait(self):
        return self.queue.pop(0)
