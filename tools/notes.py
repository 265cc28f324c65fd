NA = {
 "C31": "BaseHTTPMiddleware's guarantees are about every interleaving of the application task, the consumer and the disconnect watcher in an anyio task group; sequential contracts on each function cannot express or decide a property of the schedule (this family is silent on concurrency), and a bounded interleaving search would be model checking, not deduction.",
}
NOTE.update({
 "C24": "Middleware lists of a stated bounded length. ",
})
