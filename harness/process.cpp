#include "process.h"

#include <cerrno>
#include <csignal>
#include <cstdlib>

#include <fcntl.h>
#include <grp.h>
#include <poll.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

namespace process
{

namespace
{

constexpr int sanitizerCode = 99;
constexpr int unavailableCode = 124;
constexpr unsigned cpuSeconds = 40;
constexpr unsigned wallSeconds = 120;

std::string printable(const std::string& text, std::size_t most)
{
	std::string out;
	for (unsigned char c : text.substr(0, most))
	{
		if (c == '\n' || c == '\t' || (c >= 0x20 && c < 0x7f))
			out += static_cast<char>(c);
		else
			out += pbt::format("\\x%02x", c);
	}
	if (text.size() > most)
		out += "...";
	return out;
}

int memoryFile(const std::string& text)
{
	int fd = memfd_create("input", MFD_CLOEXEC);
	if (fd < 0)
		return -1;
	std::size_t done = 0;
	while (done < text.size())
	{
		ssize_t size = write(fd, text.data() + done, text.size() - done);
		if (size <= 0)
			break;
		done += static_cast<std::size_t>(size);
	}
	lseek(fd, 0, SEEK_SET);
	return fd;
}

} // namespace

std::string Launch::text() const
{
	std::string result = argv0;
	for (const std::string& arg : args)
		result += " '" + printable(arg, 200) + "'";
	if (input == Input::File || input == Input::Pipe)
		result += " < " + printable(inputText, 6000);
	return result;
}

std::string Run::text() const
{
	return (exited ? pbt::format("exit code %d", code) : pbt::format("signal %d", signal)) + ", standard error: " +
		printable(err, 2500) + (err.empty() ? "(nothing)" : "") + ", standard output: " + printable(out, 300) +
		(out.empty() ? "(nothing)" : "");
}

Run run(const Launch& launch)
{
	Run result;
	int outPipe[2], errPipe[2], inPipe[2] = {-1, -1};
	if (pipe2(outPipe, O_CLOEXEC) != 0 || pipe2(errPipe, O_CLOEXEC) != 0)
		throw pbt::Failure{"harness: no pipes"};
	int in = -1;
	switch (launch.input)
	{
		case Input::Empty:
			in = open("/dev/null", O_RDONLY | O_CLOEXEC);
			break;
		case Input::File:
			in = memoryFile(launch.inputText);
			break;
		case Input::Pipe:
			if (pipe2(inPipe, O_CLOEXEC) != 0)
				throw pbt::Failure{"harness: no pipes"};
			in = inPipe[0];
			fcntl(inPipe[1], F_SETFL, O_NONBLOCK);
			break;
		case Input::Closed:
			break;
		case Input::Directory:
			in = open(launch.cwd.c_str(), O_RDONLY | O_DIRECTORY | O_CLOEXEC);
			break;
		case Input::WriteOnly:
			in = open("/dev/null", O_WRONLY | O_CLOEXEC);
			break;
	}
	int out = outPipe[1];
	switch (launch.output)
	{
		case Output::Pipe:
		case Output::Closed:
			break;
		case Output::FullDevice:
			out = open("/dev/full", O_WRONLY | O_CLOEXEC);
			break;
		case Output::ReadOnly:
			out = open("/dev/null", O_RDONLY | O_CLOEXEC);
			break;
		case Output::BrokenPipe:
		{
			int broken[2];
			if (pipe2(broken, O_CLOEXEC) != 0)
				throw pbt::Failure{"harness: no pipes"};
			close(broken[0]);
			out = broken[1];
			break;
		}
		case Output::File:
			out = open(launch.outputFile.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0644);
			break;
	}
	int tool = open(launch.tool.c_str(), O_RDONLY | O_CLOEXEC);
	if (out < 0 || tool < 0 || (in < 0 && launch.input != Input::Closed))
		throw pbt::Failure{"harness: can't open what the tool needs: " + launch.tool};

	std::vector<char*> argv;
	argv.push_back(const_cast<char*>(launch.argv0.c_str()));
	for (const std::string& arg : launch.args)
		argv.push_back(const_cast<char*>(arg.c_str()));
	argv.push_back(nullptr);

	pid_t pid = fork();
	if (pid < 0)
		throw pbt::Failure{"harness: can't fork"};
	if (pid == 0)
	{
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		if (chdir(launch.cwd.c_str()) != 0)
			_exit(unavailableCode);
		// A copy above the standard descriptors.
		if (launch.input == Input::Closed)
			close(0);
		else
			dup2(in, 0);
		dup2(errPipe[1], 2);
		if (launch.output == Output::Closed)
			close(1);
		else
			dup2(out, 1);
		signal(SIGPIPE, launch.output == Output::BrokenPipe ? SIG_IGN : SIG_DFL);
		signal(SIGXFSZ, SIG_IGN);
		if (launch.unprivileged)
		{
			if (setgroups(0, nullptr) != 0 || setgid(65534) != 0 || setuid(65534) != 0)
				_exit(unavailableCode);
		}
		rlimit limit = {0, 0};
		setrlimit(RLIMIT_CORE, &limit);
		limit.rlim_cur = cpuSeconds;
		limit.rlim_max = cpuSeconds;
		setrlimit(RLIMIT_CPU, &limit);
		limit.rlim_cur = limit.rlim_max = launch.fileLimit >= 0 ? static_cast<rlim_t>(launch.fileLimit) : 1U << 30;
		setrlimit(RLIMIT_FSIZE, &limit);
		alarm(wallSeconds);
		fexecve(tool, argv.data(), environ);
		_exit(unavailableCode);
	}

	close(outPipe[1]);
	close(errPipe[1]);
	if (out != outPipe[1])
		close(out);
	if (in >= 0)
		close(in);
	close(tool);
	std::size_t sent = 0;
	bool open[2] = {true, true};
	while (open[0] || open[1] || inPipe[1] >= 0)
	{
		pollfd polled[3] = {{open[0] ? outPipe[0] : -1, POLLIN, 0}, {open[1] ? errPipe[0] : -1, POLLIN, 0},
			{inPipe[1], POLLOUT, 0}};
		if (poll(polled, 3, -1) < 0)
		{
			if (errno == EINTR)
				continue;
			break;
		}
		for (unsigned i = 0; i < 2; ++i)
		{
			if (!polled[i].revents || !open[i])
				continue;
			char buffer[65536];
			ssize_t size = read(polled[i].fd, buffer, sizeof(buffer));
			if (size <= 0)
				open[i] = false;
			else
				(i == 0 ? result.out : result.err).append(buffer, static_cast<std::size_t>(size));
		}
		if (inPipe[1] >= 0 && polled[2].revents)
		{
			ssize_t size = write(inPipe[1], launch.inputText.data() + sent, launch.inputText.size() - sent);
			if (size > 0)
				sent += static_cast<std::size_t>(size);
			if ((size < 0 && errno != EAGAIN) || sent == launch.inputText.size())
			{
				close(inPipe[1]);
				inPipe[1] = -1;
			}
		}
	}
	close(outPipe[0]);
	close(errPipe[0]);
	int status = 0;
	while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
	result.exited = WIFEXITED(status);
	if (result.exited)
		result.code = WEXITSTATUS(status);
	else
		result.signal = WTERMSIG(status);
	if (result.exited && result.code == unavailableCode && result.err.empty())
		result.skipped = true;
	return result;
}

bool succeeded(const Run& run)
{
	return run.exited && run.code == 0;
}

bool orderly(const Run& run, pbt::Context& context)
{
	context.checked(3);
	if (!run.exited || run.code == sanitizerCode)
		context.fail("the tool crashed or hung: " + run.text());
	if (run.code == 0)
	{
		if (!run.err.empty())
			context.fail("success with a message: " + run.text());
		return true;
	}
	if (run.err.find_first_not_of(" \n") == std::string::npos)
		context.fail("failure without a message: " + run.text());
	if (!run.out.empty())
		context.fail("failure with output: " + run.text());
	return false;
}

} // namespace process
