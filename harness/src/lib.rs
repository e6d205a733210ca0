// only there to build the dependencies on their own
