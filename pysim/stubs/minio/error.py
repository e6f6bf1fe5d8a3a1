class MinioError(Exception):
    pass


class InvalidSizeError(MinioError):
    pass


class InvalidArgumentError(MinioError):
    pass


class ResponseError(MinioError):
    def __init__(self, code="", message="", *a):
        MinioError.__init__(self, "%s: %s" % (code, message))
        self.code = code
        self.message = message


class NoSuchBucket(ResponseError):
    pass


class NoSuchKey(ResponseError):
    pass


class AccessDenied(ResponseError):
    pass


class BucketAlreadyExists(ResponseError):
    pass


class BucketAlreadyOwnedByYou(ResponseError):
    pass


class InvalidBucketError(MinioError):
    pass
