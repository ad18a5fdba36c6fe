from .synchronous_runner import SynchronousRunner
from .asynchronous_runner import AsynchronousRunner
